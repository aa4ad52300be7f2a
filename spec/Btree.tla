------------------------------- MODULE Btree -------------------------------
(***************************************************************************)
(* B+trees: ordered maps from bkeys to (element flag, value).              *)
(* An element is [b, s, f, v]: the bkey as a comparable tuple (limbs of an *)
(* unsigned number, or bytes), the bkey as printed, the flag bytes, data.  *)
(* it.el is the sequence of elements in ascending bkey order; it.bt the    *)
(* bkey type ("" none yet, "u" number, "x" bytes), it.mr <<>> or the       *)
(* maximum bkey range, it.tr whether the overflow action has trimmed.      *)
(***************************************************************************)
EXTENDS Coll

(* ------------------------------------------------------------ bkeys, eflags *)
HexVal == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"} |->
            IF c \in DOMAIN DigitVal THEN DigitVal[c]
            ELSE CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
                   [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] OTHER -> 15]
HexDig == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
IsHex(s) == Len(s) >= 2 /\ Prefix(s, 2) = "0x"
Bytes(s) == [i \in 1..((Len(s) - 2) \div 2) |-> 16 * HexVal[Ch(s, 2 * i + 1)] + HexVal[Ch(s, 2 * i + 2)]]
RECURSIVE HexFrom(_, _)
HexFrom(b, i) == IF i > Len(b) THEN "" ELSE HexDig[(b[i] \div 16) + 1] \o HexDig[(b[i] % 16) + 1] \o HexFrom(b, i + 1)
HexStr(b) == "0x" \o HexFrom(b, 1)

BkType(s) == IF IsHex(s) THEN "x" ELSE "u"
BkVal(s) == IF IsHex(s) THEN Bytes(s) ELSE ParseDigits(s)
BkStr(t, b) == IF t = "x" THEN HexStr(b) ELSE UStr(b)
FlagOf(s) == IF s = "" \/ s = "0" THEN <<>> ELSE Bytes(s)

Line(e) == e.s \o (IF e.f = <<>> THEN "" ELSE " " \o HexStr(e.f)) \o " " \o N(Len(e.v)) \o " " \o e.v

(* number of elements below b, and not above b *)
RECURSIVE Bis(_, _, _, _, _)
Bis(el, b, strict, lo, hi) ==                   \* first position in lo..hi+1 whose bkey is >= b (strict: > b)
  IF lo > hi THEN lo
  ELSE LET m == (lo + hi) \div 2
           below == IF strict THEN ~Lt(b, el[m].b) ELSE Lt(el[m].b, b)
       IN IF below THEN Bis(el, b, strict, m + 1, hi) ELSE Bis(el, b, strict, lo, m - 1)
Lower(el, b) == Bis(el, b, FALSE, 1, Len(el)) - 1
Upper(el, b) == Bis(el, b, TRUE, 1, Len(el)) - 1
Pos(el, b) == LET p == Lower(el, b) + 1 IN IF p <= Len(el) /\ el[p].b = b THEN p ELSE 0

(* ------------------------------------------------------------------- filters *)
(* bitwise operations on bytes *)
RECURSIVE BitOp(_, _, _, _)
BitOp(op, a, b, n) ==
  IF n = 0 THEN 0
  ELSE LET x == a % 2  y == b % 2
           z == CASE op = "&" -> IF x = 1 /\ y = 1 THEN 1 ELSE 0
                  [] op = "|" -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
                  [] OTHER -> IF x # y THEN 1 ELSE 0
       IN z + 2 * BitOp(op, a \div 2, b \div 2, n - 1)
ByteOp(op, a, b) == BitOp(op, a, b, 8)

(* flt: [o, bop, bv, cmp, vs]: offset, optional bitwise operation and operand, comparison, values (hex strings) *)
Match(flt, f) ==
  LET cv == [i \in 1..Len(flt.vs) |-> Bytes(flt.vs[i])]
      n == Len(cv[1])
      w == SubSeq(f, flt.o + 1, flt.o + n)
      bv == Bytes(flt.bv)
      x == IF flt.bop = "" THEN w ELSE [i \in 1..n |-> ByteOp(flt.bop, w[i], bv[i])]
  IN IF flt.o >= Len(f) \/ n > Len(f) - flt.o THEN flt.cmp = "NE"
     ELSE CASE flt.cmp = "EQ" -> x \in ToSet(cv)
            [] flt.cmp = "NE" -> x \notin ToSet(cv)
            [] flt.cmp = "LT" -> Lt(x, cv[1])
            [] flt.cmp = "LE" -> Le(x, cv[1])
            [] flt.cmp = "GT" -> Lt(cv[1], x)
            [] OTHER -> Le(cv[1], x)
HasFlt(o) == "flt" \in DOMAIN o
FltBad(o) == HasFlt(o) /\ o.flt.o + (Len(o.flt.vs[1]) - 2) \div 2 > 31       \* reaches beyond the longest flag
Pass(o, e) == ~HasFlt(o) \/ Match(o.flt, e.f)

(* -------------------------------------------------------------------- ranges *)
(* A request range: o.f..o.t, or the single bkey o.f when o.t = "". *)
RType(o) == BkType(o.f)
BRange(o) == LET f == BkVal(o.f)  t == IF o.t = "" THEN f ELSE BkVal(o.t)
            IN [f |-> f, t |-> t, dir |-> (IF f = t THEN "one" ELSE IF Lt(f, t) THEN "up" ELSE "down")]
(* 1-based positions of the elements in the range: <<lo, hi>>, empty when lo > hi *)
Span(el, r) == IF r.dir = "down" THEN <<Lower(el, r.t) + 1, Upper(el, r.f)>>
               ELSE <<Lower(el, r.f) + 1, Upper(el, r.t)>>
InOrder(el, r) == LET s == Span(el, r)  x == SubSeq(el, s[1], s[2]) IN IF r.dir = "down" THEN Rev(x) ELSE x
Cut(s, off, n) == SubSeq(s, off + 1, IF n = 0 \/ off + n > Len(s) THEN Len(s) ELSE off + n)
WrongBk(it, o) == it.bt # "" /\ it.bt # RType(o)

(* the trimmed side of a tree, if it has trimmed: the low end or the high end *)
TrimLow(it) == it.tr /\ it.ov = "smallest_trim"
TrimHigh(it) == it.tr /\ it.ov = "largest_trim"
(* the start of the range lies beyond the trimmed end (elements that would come first may be gone) *)
StartTrimmed(it, r) ==
  LET el == it.el  n == Len(el)  s == Span(el, r)  none == s[1] > s[2] IN
  IF none
  THEN (TrimLow(it) /\ Lt(r.f, el[1].b)) \/ (TrimHigh(it) /\ Lt(el[n].b, r.f))
  ELSE r.dir # "one" /\ ((TrimLow(it) /\ r.dir = "up" /\ s[1] = 1 /\ r.f # el[1].b)
                         \/ (TrimHigh(it) /\ r.dir = "down" /\ s[2] = n /\ r.f # el[n].b))
(* scanning all of the (non-empty) range runs off the trimmed end.  A scan that reaches the last bkey of the range on
   its second or a later element knows that it is done; otherwise it looks one element further. *)
RunsOff(it, r) ==
  LET el == it.el  n == Len(el)  s == Span(el, r)
      stops == r.dir # "one" /\ s[1] # s[2] /\ (IF r.dir = "down" THEN el[s[1]].b ELSE el[s[2]].b) = r.t
  IN ~stops /\ ((TrimLow(it) /\ r.dir = "down" /\ s[1] = 1) \/ (TrimHigh(it) /\ r.dir # "down" /\ s[2] = n))

(* ---------------------------------------------------------------- insertion *)
ByteAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE SubBytes(_, _, _, _)
SubBytes(a, b, i, borrow) ==
  IF i = 0 THEN <<>>
  ELSE LET d == ByteAt(a, i) - ByteAt(b, i) - borrow
       IN Append(SubBytes(a, b, i - 1, IF d < 0 THEN 1 ELSE 0), IF d < 0 THEN d + 256 ELSE d)
(* a - b; byte strings as numbers of n bytes *)
Diff(t, n, a, b) == IF t = "u" THEN SubLimbs(a, b) ELSE SubBytes(a, b, n, 0)
Exceeds(it, hi, lo) == it.mr # <<>> /\ Lt(it.mr[1], Diff(it.bt, Len(it.mr[1]), hi, lo))
Mode(it) == IF it.ov \in {"smallest_trim", "smallest_silent_trim"} THEN "low"
            ELSE IF it.ov \in {"largest_trim", "largest_silent_trim"} THEN "high" ELSE "error"
Loud(it) == it.ov \in {"smallest_trim", "largest_trim"}

(* insert element e with a bkey not yet present: [ok, it, r, out] where out is the element trimmed by count *)
Link(st, it, t, e) ==
  LET el == it.el  n == Len(el)  m == EffMax(st, it)
      put == InsertAt0(el, Lower(el, e.b), e)
      low == n > 0 /\ Lt(e.b, el[1].b)
      high == n > 0 /\ Lt(el[n].b, e.b)
      No(x, w) == [ok |-> FALSE, it |-> x, r |-> w, out |-> <<>>]
      wide == n > 0 /\ ((low /\ Exceeds(it, el[n].b, e.b)) \/ (high /\ Exceeds(it, e.b, el[1].b)))
  IN IF n = 0 THEN [ok |-> TRUE, it |-> [it EXCEPT !.el = <<e>>, !.bt = t], r |-> "STORED", out |-> <<>>]
     ELSE IF wide
     THEN IF (low /\ Mode(it) # "high") \/ (high /\ Mode(it) # "low") THEN No(it, "OUT_OF_RANGE")
          ELSE LET kept == IF low THEN SelectSeq(put, LAMBDA x : ~Exceeds(it, x.b, e.b))
                           ELSE SelectSeq(put, LAMBDA x : ~Exceeds(it, e.b, x.b))
               IN [ok |-> TRUE, it |-> [it EXCEPT !.el = kept, !.tr = IF Loud(it) THEN FALSE ELSE @],
                   r |-> "STORED", out |-> <<>>]
     ELSE IF n < m THEN [ok |-> TRUE, it |-> [it EXCEPT !.el = put], r |-> "STORED", out |-> <<>>]
     ELSE IF Mode(it) = "error" THEN No(it, "OVERFLOWED")
     ELSE IF (Mode(it) = "low" /\ low) \/ (Mode(it) = "high" /\ high)
     THEN No([it EXCEPT !.tr = IF Loud(it) THEN TRUE ELSE @], "OUT_OF_RANGE")
     ELSE LET x == [it EXCEPT !.tr = IF Loud(it) THEN TRUE ELSE @]
          IN IF Mode(it) = "low"
             THEN [ok |-> TRUE, it |-> [x EXCEPT !.el = SubSeq(put, 2, n + 1)], r |-> "STORED", out |-> <<put[1]>>]
             ELSE [ok |-> TRUE, it |-> [x EXCEPT !.el = SubSeq(put, 1, n)], r |-> "STORED", out |-> <<put[n + 1]>>]

ElemOf(o) == LET b == BkVal(o.b) IN [b |-> b, s |-> BkStr(BkType(o.b), b), f |-> FlagOf(o.ef), v |-> o.v]
BopInsert(st, o, upsert) ==
  InsertElem(st, o, "b+tree", LAMBDA it :
    LET t == BkType(o.b)  e == ElemOf(o)  p == Pos(it.el, e.b) IN
    IF (it.el # <<>> \/ it.mr # <<>>) /\ it.bt # "" /\ it.bt # t THEN [ok |-> FALSE, it |-> it, r |-> "BKEY_MISMATCH"]
    ELSE IF it.el # <<>> /\ p > 0
    THEN IF upsert THEN [ok |-> TRUE, it |-> [it EXCEPT !.el[p] = e], r |-> "REPLACED"]
         ELSE [ok |-> FALSE, it |-> it, r |-> "ELEMENT_EXISTS"]
    ELSE LET x == Link(st, it, t, e) IN
         IF x.ok /\ o.getrim /\ x.out # <<>>
         THEN [ok |-> TRUE, it |-> x.it, r |-> "", ls |-> <<"VALUE " \o it.fl \o " 1", Line(x.out[1]), "TRIMMED">>]
         ELSE [ok |-> x.ok, it |-> x.it, r |-> x.r])

(* -------------------------------------------------------------- update, delete *)
(* o.up = [op, off, val]: new flag ("" op), or a bitwise change of the flag from offset off; absent: keep the flag *)
BopChange(st, o) ==
  OnColl(st, o.k, "b+tree", LAMBDA it :
    LET b == BkVal(o.b)  p == Pos(it.el, b) IN
    IF it.el = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE IF it.bt # BkType(o.b) THEN Fail(st, "BKEY_MISMATCH")
    ELSE IF p = 0 THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE LET e == it.el[p]
             has == "up" \in DOMAIN o
             uv == IF has THEN FlagOf(o.up.val) ELSE <<>>
             bit == has /\ o.up.op # ""
             bad == bit /\ (o.up.off >= Len(e.f) \/ Len(uv) > Len(e.f) - o.up.off)
             f2 == IF ~has THEN e.f ELSE IF ~bit THEN uv
                   ELSE [i \in 1..Len(e.f) |-> IF i > o.up.off /\ i <= o.up.off + Len(uv)
                                               THEN ByteOp(o.up.op, e.f[i], uv[i - o.up.off]) ELSE e.f[i]]
             e2 == [e EXCEPT !.f = f2, !.v = IF "v" \in DOMAIN o THEN o.v ELSE @]
         IN IF bad THEN Fail(st, "EFLAG_MISMATCH")
            ELSE R(Put(st, o.k, [it EXCEPT !.el[p] = e2]), <<"UPDATED">>))

BopUpdate(st, o) == IF "up" \notin DOMAIN o /\ "v" \notin DOMAIN o THEN Fail(st, "NOTHING_TO_UPDATE") ELSE BopChange(st, o)

Victims(it, o, off, n) == Cut(SelectSeq(InOrder(it.el, BRange(o)), LAMBDA e : Pass(o, e)), off, n)
Drop(el, gone) == LET bs == {gone[i].b : i \in 1..Len(gone)} IN SelectSeq(el, LAMBDA e : e.b \notin bs)
BopDelete(st, o) ==
  IF FltBad(o) THEN Fail(st, BadLine) ELSE
  OnColl(st, o.k, "b+tree", LAMBDA it :
    IF it.el = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE IF WrongBk(it, o) THEN Fail(st, "BKEY_MISMATCH")
    ELSE LET x == Victims(it, o, 0, o.n) IN
      IF x = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
      ELSE AfterDelete(st, o.k, [it EXCEPT !.el = Drop(@, x)], o.drop, DelWord))

(* ----------------------------------------------------------------------- reads *)
Lines(es) == [i \in 1..Len(es) |-> Line(es[i])]
(* what a single-tree read finds: [es, trim] or an error word *)
BGet(it, o, off, n) ==
  LET r == BRange(o)
      all == SelectSeq(InOrder(it.el, r), LAMBDA e : Pass(o, e))
      s == Span(it.el, r)
      none == s[1] > s[2]
      es == IF r.dir = "one" /\ off > 0 THEN <<>> ELSE Cut(all, off, n)
      full == n > 0 /\ Len(es) = n
      trim == StartTrimmed(it, r) \/ (~none /\ r.dir # "one" /\ ~full /\ RunsOff(it, r))
  IN IF ~it.rd THEN [w |-> "UNREADABLE", es |-> <<>>, trim |-> FALSE]
     ELSE IF it.el = <<>> \/ off >= Len(it.el) THEN [w |-> "NOT_FOUND_ELEMENT", es |-> <<>>, trim |-> FALSE]
     ELSE IF WrongBk(it, o) THEN [w |-> "BKEY_MISMATCH", es |-> <<>>, trim |-> FALSE]
     ELSE IF es = <<>> THEN [w |-> IF trim THEN "OUT_OF_RANGE" ELSE "NOT_FOUND_ELEMENT", es |-> <<>>, trim |-> trim]
     ELSE [w |-> "", es |-> es, trim |-> trim]
BopGet(st, o) ==
  IF FltBad(o) THEN Fail(st, BadLine) ELSE
  OnColl(st, o.k, "b+tree", LAMBDA it :
    LET g == BGet(it, o, o.off, o.n) IN
    IF g.w # "" THEN Fail(st, g.w)
    ELSE IF o.del # "" THEN GetReply(st, o.k, it, <<Values(it, Len(g.es))>> \o Lines(g.es), o.del, Drop(it.el, g.es))
    ELSE R(st, <<Values(it, Len(g.es))>> \o Lines(g.es) \o <<IF g.trim THEN "TRIMMED" ELSE "END">>))
BopCount(st, o) ==
  IF FltBad(o) THEN Fail(st, BadLine) ELSE
  OnColl(st, o.k, "b+tree", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE")
    ELSE IF WrongBk(it, o) THEN Fail(st, "BKEY_MISMATCH")
    ELSE Fail(st, "COUNT=" \o N(Len(SelectSeq(InOrder(it.el, BRange(o)), LAMBDA e : Pass(o, e))))))

(* ------------------------------------------------------------------ arithmetic *)
(* o.d: delta; optional o.init creates the element (with optional flag o.ef) *)
BopArith(st, o, incr) ==
  LET d == ParseU64(o.d) IN
  IF d = Bad \/ d = U0 THEN Fail(st, BadLine)
  ELSE IF "init" \in DOMAIN o /\ ParseU64(o.init) = Bad THEN Fail(st, BadLine)
  ELSE OnColl(st, o.k, "b+tree", LAMBDA it :
    LET t == BkType(o.b)  b == BkVal(o.b)  p == Pos(it.el, b) IN
    IF (it.el # <<>> \/ it.mr # <<>>) /\ it.bt # "" /\ it.bt # t THEN Fail(st, "BKEY_MISMATCH")
    ELSE IF it.el # <<>> /\ p > 0
    THEN LET u == ParseU64(it.el[p].v) IN
         IF u = Bad THEN Fail(st, "CLIENT_ERROR cannot increment or decrement non-numeric value")
         ELSE LET s == UStr(IF incr THEN AddMod(u, d) ELSE SubFloor(u, d))
              IN R(Put(st, o.k, [it EXCEPT !.el[p].v = s]), <<s>>)
    ELSE IF "init" \notin DOMAIN o THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE LET s == UStr(ParseU64(o.init))
             x == Link(st, it, t, [b |-> b, s |-> BkStr(t, b), f |-> FlagOf(o.ef), v |-> s])
         IN R(Put(st, o.k, x.it), <<IF x.ok THEN s ELSE x.r>>))

(* ------------------------------------------------------------------- positions *)
OnReadable(st, o, F(_)) ==
  OnColl(st, o.k, "b+tree", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE") ELSE IF it.el = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT") ELSE F(it))
Rank(it, o) == LET p == Pos(it.el, BkVal(o.b)) IN IF p = 0 THEN -1 ELSE IF o.ord = "asc" THEN p - 1 ELSE Len(it.el) - p
Ordered(it, o) == IF o.ord = "asc" THEN it.el ELSE Rev(it.el)
BopPosition(st, o) ==
  OnReadable(st, o, LAMBDA it :
    IF it.bt # BkType(o.b) THEN Fail(st, "BKEY_MISMATCH")
    ELSE LET p == Rank(it, o) IN Fail(st, IF p < 0 THEN "NOT_FOUND_ELEMENT" ELSE "POSITION=" \o N(p)))
BopPwg(st, o) ==
  IF o.n > 100 THEN Fail(st, "CLIENT_ERROR too large count value")
  ELSE OnReadable(st, o, LAMBDA it :
    IF it.bt # BkType(o.b) THEN Fail(st, "BKEY_MISMATCH")
    ELSE LET p == Rank(it, o)
             idx == Min2(p, o.n)
             es == SubSeq(Ordered(it, o), p + 1 - idx, Min2(Len(it.el), p + 1 + o.n))
         IN IF p < 0 THEN Fail(st, "NOT_FOUND_ELEMENT")
            ELSE R(st, <<"VALUE " \o N(p) \o " " \o it.fl \o " " \o N(Len(es)) \o " " \o N(idx)>> \o Lines(es) \o <<"END">>))
(* o.pf, o.pt: positions from and to, from > to asks for the reverse direction *)
BopGbp(st, o) ==
  OnReadable(st, o, LAMBDA it :
    LET n == Len(it.el)
        C(x) == IF x >= n THEN n - 1 ELSE x
        s == Ordered(it, o)
    IN IF o.pf >= n /\ o.pt >= n THEN Fail(st, "NOT_FOUND_ELEMENT")
       ELSE LET es == IF C(o.pf) <= C(o.pt) THEN SubSeq(s, C(o.pf) + 1, C(o.pt) + 1)
                      ELSE Rev(SubSeq(s, C(o.pt) + 1, C(o.pf) + 1))
            IN R(st, <<Values(it, Len(es))>> \o Lines(es) \o <<"END">>))

(* ---------------------------------------------------------------- many keys *)
MgetOne(st, o, k) ==
  IF ~Has(st, k) THEN <<"VALUE " \o k \o " NOT_FOUND">>
  ELSE IF It(st, k).ty # "b+tree" THEN <<"VALUE " \o k \o " TYPE_MISMATCH">>
  ELSE LET it == It(st, k)  g == BGet(it, o, o.off, o.n) IN
       IF g.w # "" THEN <<"VALUE " \o k \o " " \o g.w>>
       ELSE <<"VALUE " \o k \o (IF g.trim THEN " TRIMMED " ELSE " OK ") \o it.fl \o " " \o N(Len(g.es))>>
            \o [i \in 1..Len(g.es) |-> "ELEMENT " \o Line(g.es[i])]
RECURSIVE MgetAll(_, _, _)
MgetAll(st, o, i) == IF i > Len(o.ks) THEN <<"END">> ELSE MgetOne(st, o, o.ks[i]) \o MgetAll(st, o, i + 1)
BopMget(st, o) ==
  IF FltBad(o) THEN Fail(st, BadLine)
  ELSE IF Len(o.ks) > 200 \/ o.n > 50 \/ o.n = 0 THEN Fail(st, BadValue) ELSE R(st, MgetAll(st, o, 1))

(* smget.  Keys compare byte by byte. *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
KeyCode(k) == [i \in 1..Len(k) |-> CodeOf[Ch(k, i)]]

(* per key: "miss" cause, or its matching elements with the ways its scan can end *)
Scan1(st, o, r, k) ==
  IF ~Has(st, k) THEN [w |-> "NOT_FOUND"]
  ELSE LET it == It(st, k) IN
    IF it.ty # "b+tree" THEN [w |-> "TYPE_MISMATCH"]
    ELSE IF ~it.rd THEN [w |-> "UNREADABLE"]
    ELSE IF it.el = <<>> THEN [w |-> "", es |-> <<>>, off |-> FALSE, edge |-> <<>>, fl |-> ""]
    ELSE IF WrongBk(it, o) THEN [w |-> "BKEY_MISMATCH"]
    ELSE IF StartTrimmed(it, r) THEN [w |-> "OUT_OF_RANGE"]
    ELSE LET s == Span(it.el, r) IN
         IF s[1] > s[2] THEN [w |-> "", es |-> <<>>, off |-> FALSE, edge |-> <<>>, fl |-> ""]
         ELSE [w |-> "", es |-> SelectSeq(InOrder(it.el, r), LAMBDA e : Pass(o, e)), off |-> RunsOff(it, r),
               edge |-> <<IF r.dir = "down" THEN it.el[s[1]] ELSE it.el[s[2]]>>, fl |-> it.fl]

(* all matches of all keys, in the order of the merge; down: both bkeys and keys descend *)
Before(r, x, y) == IF r.dir = "down" THEN Lt(y.e.b, x.e.b) \/ (y.e.b = x.e.b /\ Lt(y.kc, x.kc))
                   ELSE Lt(x.e.b, y.e.b) \/ (x.e.b = y.e.b /\ Lt(x.kc, y.kc))
RECURSIVE Merge2(_, _, _, _, _, _)
Merge2(r, a, b, i, j, acc) ==
  IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
  ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
  ELSE IF Before(r, b[j], a[i]) THEN Merge2(r, a, b, i, j + 1, Append(acc, b[j]))
  ELSE Merge2(r, a, b, i + 1, j, Append(acc, a[i]))
RECURSIVE MergeAll(_, _, _)
MergeAll(r, ss, i) == IF i > Len(ss) THEN <<>> ELSE Merge2(r, ss[i], MergeAll(r, ss, i + 1), 1, 1, <<>>)
RECURSIVE FirstBad(_, _, _)
FirstBad(sc, bad, i) == IF i > Len(sc) THEN "" ELSE IF sc[i].w \in bad THEN sc[i].w ELSE FirstBad(sc, bad, i + 1)
Dedup(s) == LET keep == {i \in 1..Len(s) : i = 1 \/ s[i].e.b # s[i - 1].e.b}
            IN LET q == SetToSortSeq(keep, <) IN [i \in 1..Len(q) |-> s[q[i]]]

SmLine(x) == x.k \o " " \o x.fl \o " " \o Line(x.e)
Smget(st, o) ==
  LET r == BRange(o)
      sc == [i \in 1..Len(o.ks) |-> Scan1(st, o, r, o.ks[i])]
      Src(i) == IF sc[i].w # "" THEN <<>>
                ELSE LET kc == KeyCode(o.ks[i]) IN
                     [j \in 1..Len(sc[i].es) |-> [k |-> o.ks[i], kc |-> kc, fl |-> sc[i].fl, e |-> sc[i].es[j], ki |-> i,
                                                  last |-> j = Len(sc[i].es) /\ sc[i].off]]
      merged == MergeAll(r, [i \in 1..Len(o.ks) |-> Src(i)], 1)
      old == o.mode = "old"
      bad == IF old THEN {"TYPE_MISMATCH", "BKEY_MISMATCH", "OUT_OF_RANGE"} ELSE {"TYPE_MISMATCH", "BKEY_MISMATCH"}
      \* the old command also gives up on a key whose range runs off the trimmed end without a match
      sc2 == IF old THEN [i \in 1..Len(sc) |-> IF sc[i].w = "" /\ sc[i].es = <<>> /\ sc[i].off THEN [w |-> "OUT_OF_RANGE"] ELSE sc[i]]
             ELSE sc
      fail == FirstBad(sc2, bad, 1)
      all == IF o.mode = "unique" THEN Dedup(merged) ELSE merged
  IN IF "offs" \in DOMAIN o \/ o.off > 2000 \/ o.n > 2000 \/ o.off + o.n > 2000 \/ o.n = 0 THEN Fail(st, BadValue)
     ELSE IF fail # "" THEN Fail(st, fail)
     ELSE IF old
     THEN LET \* stop after a key has run off its trimmed end, as soon as the bkey changes
              offs == {i \in 1..Len(all) : all[i].last /\ i < o.off + o.n}
              stop == IF offs = {} THEN Len(all)
                      ELSE LET m == CHOOSE x \in offs : \A y \in offs : x <= y
                               after == {i \in (m + 1)..Len(all) : all[i].e.b # all[i - 1].e.b}
                           IN IF after = {} THEN Len(all) ELSE (CHOOSE x \in after : \A y \in after : x <= y) - 1
              cut == SubSeq(all, 1, stop)
              res == Cut(cut, o.off, o.n)
              dup == \E i \in (o.off + 2)..(o.off + Len(res)) : all[i].e.b = all[i - 1].e.b
              trim == offs # {} /\ Len(res) < o.n
              miss == SelectSeq([i \in 1..Len(o.ks) |-> i], LAMBDA i : sc[i].w # "")
          IN R(st, <<"VALUE " \o N(Len(res))>> \o [i \in 1..Len(res) |-> SmLine(res[i])]
                   \o <<"MISSED_KEYS " \o N(Len(miss))>> \o [i \in 1..Len(miss) |-> o.ks[miss[i]]]
                   \o <<IF dup /\ trim THEN "DUPLICATED_TRIMMED" ELSE IF dup THEN "DUPLICATED"
                        ELSE IF trim THEN "TRIMMED" ELSE "END">>)
     ELSE LET res == Cut(all, o.off, o.n)
              dup == \E i \in (o.off + 2)..(o.off + Len(res)) : all[i].e.b = all[i - 1].e.b
              miss == SelectSeq([i \in 1..Len(o.ks) |-> i], LAMBDA i : sc[i].w # "")
              cut == {i \in 1..Len(o.ks) : sc[i].w = "" /\ sc[i].off
                        /\ (Len(res) < o.n \/ (IF r.dir = "down" THEN Lt(res[Len(res)].e.b, sc[i].edge[1].b)
                                               ELSE Lt(sc[i].edge[1].b, res[Len(res)].e.b)))}
              \* keys trimmed at the same bkey may come in any order: o.ptrim is the order seen
              T(i) == [k |-> o.ks[i], b |-> sc[i].edge[1].b, s |-> sc[i].edge[1].s]
              Ord(x, y) == IF r.dir = "down" THEN Le(y.b, x.b) ELSE Le(x.b, y.b)
              want == {T(i) : i \in cut}
              seen == [j \in 1..Len(o.ptrim) |-> LET ii == {i \in cut : o.ks[i] = o.ptrim[j]}
                                                 IN IF ii = {} THEN [k |-> "?", b |-> <<>>, s |-> "?"] ELSE T(CHOOSE i \in ii : TRUE)]
              ok == Len(seen) = Cardinality(want) /\ ToSet(seen) = want /\ \A j \in 1..(Len(seen) - 1) : Ord(seen[j], seen[j + 1])
              tl == IF ok THEN seen ELSE SetToSortSeq(want, LAMBDA x, y : x # y /\ Ord(x, y))
          IN R(st, <<"ELEMENTS " \o N(Len(res))>> \o [i \in 1..Len(res) |-> SmLine(res[i])]
                   \o <<"MISSED_KEYS " \o N(Len(miss))>> \o [i \in 1..Len(miss) |-> o.ks[miss[i]] \o " " \o sc[miss[i]].w]
                   \o <<"TRIMMED_KEYS " \o N(Len(tl))>> \o [i \in 1..Len(tl) |-> tl[i].k \o " " \o tl[i].s]
                   \o <<IF dup THEN "DUPLICATED" ELSE "END">>)
BopSmget(st, o) == IF FltBad(o) THEN Fail(st, BadLine) ELSE Smget(st, o)
=============================================================================
