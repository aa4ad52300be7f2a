-------------------------------- MODULE Attr --------------------------------
(* Item attributes: getattr and setattr.                                     *)
EXTENDS Btree

AttrNames == {"flags", "expiretime", "type", "count", "maxcount", "overflowaction", "readable",
              "maxbkeyrange", "minbkey", "maxbkey", "trimmed"}
CollNames == {"count", "maxcount", "overflowaction", "readable"}
TreeNames == {"maxbkeyrange", "minbkey", "maxbkey", "trimmed"}
Applies(it, n) == (n \in CollNames => it.ty # "kv") /\ (n \in TreeNames => it.ty = "b+tree")
AttrVal(st, it, n) ==
  CASE n = "type" -> it.ty
    [] n = "flags" -> it.fl
    [] n = "expiretime" -> N(Left(st, it.exp))
    [] n = "count" -> N(Count(it))
    [] n = "maxcount" -> N(EffMax(st, it))
    [] n = "overflowaction" -> it.ov
    [] n = "readable" -> (IF it.rd THEN "on" ELSE "off")
    [] n = "maxbkeyrange" -> (IF it.mr = <<>> THEN "0" ELSE it.mr[2])
    [] n = "minbkey" -> (IF it.el = <<>> THEN "-1" ELSE it.el[1].s)
    [] n = "maxbkey" -> (IF it.el = <<>> THEN "-1" ELSE it.el[Len(it.el)].s)
    [] OTHER -> (IF it.tr THEN "1" ELSE "0")
DefaultNames(it) == <<"type", "flags", "expiretime">>
  \o (IF it.ty = "kv" THEN <<>> ELSE <<"count", "maxcount", "overflowaction", "readable">>)
  \o (IF it.ty = "b+tree" THEN <<"maxbkeyrange", "minbkey", "maxbkey", "trimmed">> ELSE <<>>)
Getattr(st, o) ==
  IF \E i \in 1..Len(o.names) : o.names[i] \notin AttrNames THEN Fail(st, "ATTR_ERROR not found")
  ELSE IF ~Has(st, o.k) THEN Fail(st, "NOT_FOUND")
  ELSE LET it == It(st, o.k)
           ns == IF o.names = <<>> THEN DefaultNames(it) ELSE o.names
       IN IF \E i \in 1..Len(ns) : ~Applies(it, ns[i]) THEN Fail(st, "ATTR_ERROR not found")
          ELSE R(st, [i \in 1..Len(ns) |-> "ATTR " \o ns[i] \o "=" \o AttrVal(st, it, ns[i])] \o <<"END">>)

(* ---------------------------------------------------------------------- setattr *)
RECURSIVE IntDigits(_, _, _)
IntDigits(s, i, acc) == IF i > Len(s) THEN acc ELSE IntDigits(s, i + 1, 10 * acc + DigitVal[Ch(s, i)])
IsInt(s) == LET j == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN 2 ELSE 1 IN j <= Len(s) /\ SkipDigits(s, j) = Len(s) + 1
IntOf(s) == IF Ch(s, 1) = "-" THEN -IntDigits(s, 2, 0) ELSE IntDigits(s, 1, 0)
AllOvfl == {"error", "head_trim", "tail_trim", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"}
HexOk(s) == Len(s) > 2 /\ Len(s) % 2 = 0 /\ Len(s) <= 64 /\ \A i \in 3..Len(s) : Ch(s, i) \in DOMAIN HexVal
BkOk(s) == IF IsHex(s) THEN HexOk(s) ELSE ParseU64(s) # Bad
(* "" when the name = value pair is readable, else the error *)
PairErr(p) ==
  CASE p[1] \in {"expiretime", "maxcount"} -> IF IsInt(p[2]) THEN "" ELSE "ATTR_ERROR bad value"
    [] p[1] = "overflowaction" -> IF p[2] \in AllOvfl THEN "" ELSE "ATTR_ERROR bad value"
    [] p[1] = "readable" -> IF p[2] = "on" THEN "" ELSE "ATTR_ERROR bad value"
    [] p[1] = "maxbkeyrange" -> IF BkOk(p[2]) THEN "" ELSE "ATTR_ERROR bad value"
    [] OTHER -> "ATTR_ERROR not found"
RECURSIVE FirstErr(_, _)
FirstErr(ps, i) == IF i > Len(ps) THEN "" ELSE IF PairErr(ps[i]) # "" THEN PairErr(ps[i]) ELSE FirstErr(ps, i + 1)

Given(o, n) == \E i \in 1..Len(o.sets) : o.sets[i][1] = n
LastOf(o, n) == o.sets[CHOOSE i \in 1..Len(o.sets) : o.sets[i][1] = n /\ \A j \in (i + 1)..Len(o.sets) : o.sets[j][1] # n][2]
Setattr(st, o) ==
  IF FirstErr(o.sets, 1) # "" THEN Fail(st, FirstErr(o.sets, 1))
  ELSE IF ~Has(st, o.k) THEN Fail(st, "NOT_FOUND")
  ELSE
  LET it == It(st, o.k)
      coll == it.ty # "kv"
      tree == it.ty = "b+tree"
      x == Rt(st, IntOf(LastOf(o, "expiretime")))
      mc == RealMax(st, it.ty, IntOf(LastOf(o, "maxcount")))
      ov == LastOf(o, "overflowaction")
      mrs == LastOf(o, "maxbkeyrange")
      mrt == BkType(mrs)
      mrv == IF mrt = "x" THEN Bytes(mrs) ELSE ParseU64(mrs)
      reset == mrt = "u" /\ mrv = U0
      n == Count(it)
      badx == Given(o, "expiretime") /\ StickyToggle(it, x)
      badmc == coll /\ Given(o, "maxcount") /\ mc > 0 /\ mc < n
      badov == coll /\ Given(o, "overflowaction") /\ ~OvflOk(it.ty, ov)
      span == IF tree /\ n >= 2 THEN Diff(it.bt, Len(mrv), it.el[n].b, it.el[1].b) ELSE <<>>
      badmr == tree /\ Given(o, "maxbkeyrange") /\ ~reset /\ n > 0
               /\ (it.bt # mrt \/ (n >= 2 /\ (it.mr = <<>> \/ it.mr[1] # mrv) /\ Lt(mrv, span)))
      i1 == IF Given(o, "expiretime") THEN [it EXCEPT !.exp = x] ELSE it
      i2 == IF coll /\ Given(o, "maxcount") THEN [i1 EXCEPT !.mc = mc] ELSE i1
      i3 == IF coll /\ Given(o, "overflowaction")
            THEN IF tree /\ ov # i2.ov THEN [i2 EXCEPT !.ov = ov, !.tr = FALSE] ELSE [i2 EXCEPT !.ov = ov]
            ELSE i2
      i4 == IF coll /\ Given(o, "readable") THEN [i3 EXCEPT !.rd = TRUE] ELSE i3
      i5 == IF tree /\ Given(o, "maxbkeyrange")
            THEN IF reset THEN (IF i4.mr = <<>> THEN i4 ELSE [i4 EXCEPT !.mr = <<>>, !.bt = IF n = 0 THEN "" ELSE @])
                 ELSE [i4 EXCEPT !.mr = <<mrv, BkStr(mrt, mrv)>>, !.bt = IF n = 0 THEN mrt ELSE @]
            ELSE i4
  IN IF badx \/ badmc \/ badov \/ badmr THEN Fail(st, "ATTR_ERROR bad value")
     ELSE R(Put(st, o.k, i5), <<"OK">>)
=============================================================================
