-------------------------------- MODULE Coll --------------------------------
(* Lists, sets and maps.                                                     *)
EXTENDS Kv

Abs(i) == IF i < 0 THEN -i ELSE i
TakeN(s, n) == SubSeq(s, 1, n)
InsertAt0(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))   \* i elements stay in front

(* --------------------------------------------------------------------- lists *)
LopInsert(st, o) ==
  InsertElem(st, o, "list", LAMBDA it :
    LET n == Len(it.el)  m == EffMax(st, it)  i == o.i IN
    IF (i >= 0 /\ (i > n \/ i > m - 1)) \/ (i < 0 /\ (-i > n + 1 \/ -i > m))
    THEN [ok |-> FALSE, it |-> it, r |-> "OUT_OF_RANGE"]
    ELSE IF n >= m /\ it.ov = "error" THEN [ok |-> FALSE, it |-> it, r |-> "OVERFLOWED"]
    ELSE LET full == n >= m
             trimHead == IF i = 0 THEN FALSE ELSE IF i = -1 THEN TRUE ELSE it.ov = "head_trim"
             el1 == IF ~full THEN it.el ELSE IF trimHead THEN SubSeq(it.el, 2, n) ELSE SubSeq(it.el, 1, n - 1)
             i1 == IF ~full \/ i = 0 \/ i = -1 THEN i
                   ELSE IF it.ov = "head_trim" THEN (IF i > 0 THEN i - 1 ELSE i)
                   ELSE (IF i < 0 THEN i + 1 ELSE i)
             i2 == IF i1 >= 0 THEN i1 ELSE Max2(0, i1 + Len(el1) + 1)
         IN [ok |-> TRUE, it |-> [it EXCEPT !.el = InsertAt0(el1, i2, o.v)], r |-> "STORED"])

(* positions of a request over a list of n elements: <<from, to>> (0-based, clamped) or <<>> *)
ListRange(n, f0, t0) ==
  LET f == IF f0 < 0 THEN f0 + n ELSE f0
      t == IF t0 < 0 THEN t0 + n ELSE t0
      Clamp(x) == IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x
  IN IF n = 0 \/ (f < 0 /\ t < 0) \/ (f >= n /\ t >= n) THEN <<>> ELSE <<Clamp(f), Clamp(t)>>
Without(s, lo, hi) == SubSeq(s, 1, lo) \o SubSeq(s, hi + 2, Len(s))           \* drop 0-based positions lo..hi
Min2(a, b) == IF a < b THEN a ELSE b

LopDelete(st, o) ==
  OnColl(st, o.k, "list", LAMBDA it :
    LET r == ListRange(Len(it.el), o.f, o.t) IN
    IF r = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE AfterDelete(st, o.k, [it EXCEPT !.el = Without(@, Min2(r[1], r[2]), Max2(r[1], r[2]))], o.drop, DelWord))

ElemLine(v) == N(Len(v)) \o " " \o v
Values(it, n) == "VALUE " \o it.fl \o " " \o N(n)
(* the tail of a reply to a get: END, or what the deletion did *)
GetReply(st, k, it, lines, del, rest) ==
  IF del = "" THEN R(st, lines \o <<"END">>)
  ELSE LET it2 == [it EXCEPT !.el = rest] IN
    IF Count(it2) = 0 /\ del = "drop" THEN R(Unlink(st, k), lines \o <<"DELETED_DROPPED">>)
    ELSE R(Put(st, k, it2), lines \o <<"DELETED">>)

LopGet(st, o) ==
  OnColl(st, o.k, "list", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE")
    ELSE LET r == ListRange(Len(it.el), o.f, o.t) IN
      IF r = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
      ELSE LET lo == Min2(r[1], r[2])  hi == Max2(r[1], r[2])
               s == SubSeq(it.el, lo + 1, hi + 1)
               s2 == IF r[1] <= r[2] THEN s ELSE Rev(s)
           IN GetReply(st, o.k, it, <<Values(it, Len(s2))>> \o [i \in 1..Len(s2) |-> ElemLine(s2[i])],
                       o.del, Without(it.el, lo, hi)))

(* ---------------------------------------------------------------------- sets *)
SopInsert(st, o) ==
  InsertElem(st, o, "set", LAMBDA it :
    IF Cardinality(it.el) >= EffMax(st, it) THEN [ok |-> FALSE, it |-> it, r |-> "OVERFLOWED"]
    ELSE IF o.v \in it.el THEN [ok |-> FALSE, it |-> it, r |-> "ELEMENT_EXISTS"]
    ELSE [ok |-> TRUE, it |-> [it EXCEPT !.el = @ \cup {o.v}], r |-> "STORED"])
SopDelete(st, o) ==
  OnColl(st, o.k, "set", LAMBDA it :
    IF o.v \notin it.el THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE AfterDelete(st, o.k, [it EXCEPT !.el = @ \ {o.v}], o.drop, DelWord))
SopExist(st, o) ==
  OnColl(st, o.k, "set", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE") ELSE Fail(st, IF o.v \in it.el THEN "EXIST" ELSE "NOT_EXIST"))
(* The members returned are the server's choice: o.pick is what was seen on the wire; it must be a selection of
   distinct current members of the right number. *)
SopGet(st, o) ==
  IF o.n > 1000 THEN Fail(st, "CLIENT_ERROR invalid: too many count")
  ELSE OnColl(st, o.k, "set", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE")
    ELSE IF it.el = {} THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE LET size == Cardinality(it.el)
             want == IF o.n = 0 \/ o.n >= size THEN size ELSE o.n
             got == ToSet(o.pick)
         IN IF Len(o.pick) # want \/ Cardinality(got) # want \/ ~(got \subseteq it.el)
            THEN R(st, <<N(want) \o " distinct members of the set">>)
            ELSE GetReply(st, o.k, it, <<Values(it, want)>> \o [i \in 1..want |-> ElemLine(o.pick[i])],
                          o.del, it.el \ got))

(* ---------------------------------------------------------------------- maps *)
MapPut(m, f, v) == (f :> v) @@ m
MapDel(m, fs) == [f \in DOMAIN m \ fs |-> m[f]]
MopInsert(st, o, upsert) ==
  InsertElem(st, o, "map", LAMBDA it :
    IF o.f \in DOMAIN it.el
    THEN IF upsert THEN [ok |-> TRUE, it |-> [it EXCEPT !.el = MapPut(@, o.f, o.v)], r |-> "REPLACED"]
         ELSE [ok |-> FALSE, it |-> it, r |-> "ELEMENT_EXISTS"]
    ELSE IF Cardinality(DOMAIN it.el) >= EffMax(st, it) THEN [ok |-> FALSE, it |-> it, r |-> "OVERFLOWED"]
    ELSE [ok |-> TRUE, it |-> [it EXCEPT !.el = MapPut(@, o.f, o.v)], r |-> "STORED"])
MopUpdate(st, o) ==
  OnColl(st, o.k, "map", LAMBDA it :
    IF o.f \notin DOMAIN it.el THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE R(Put(st, o.k, [it EXCEPT !.el = MapPut(@, o.f, o.v)]), <<"UPDATED">>))
MopDelete(st, o) ==
  OnColl(st, o.k, "map", LAMBDA it :
    LET fs == IF o.fs = <<>> THEN DOMAIN it.el ELSE ToSet(o.fs) \cap DOMAIN it.el IN
    IF fs = {} THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE AfterDelete(st, o.k, [it EXCEPT !.el = MapDel(@, fs)], o.drop, DelWord))
MapLine(f, v) == f \o " " \o N(Len(v)) \o " " \o v
(* named fields come back in the order asked; without names the order is the server's (o.pick) *)
MopGet(st, o) ==
  OnColl(st, o.k, "map", LAMBDA it :
    IF ~it.rd THEN Fail(st, "UNREADABLE")
    ELSE IF DOMAIN it.el = {} THEN Fail(st, "NOT_FOUND_ELEMENT")
    ELSE LET all == o.fs = <<>>
             asked == IF all THEN o.pick
                      ELSE IF o.del = "" THEN SelectSeq(o.fs, LAMBDA f : f \in DOMAIN it.el)
                      ELSE LET idx == {i \in 1..Len(o.fs) : o.fs[i] \in DOMAIN it.el /\ \A j \in 1..(i-1) : o.fs[j] # o.fs[i]}
                           IN [i \in 1..Cardinality(idx) |-> o.fs[SetToSortSeq(idx, <)[i]]]
         IN IF all /\ (ToSet(asked) # DOMAIN it.el \/ Len(asked) # Cardinality(DOMAIN it.el))
            THEN R(st, <<"every field of the map once">>)
            ELSE IF asked = <<>> THEN Fail(st, "NOT_FOUND_ELEMENT")
            ELSE GetReply(st, o.k, it, <<Values(it, Len(asked))>> \o [i \in 1..Len(asked) |-> MapLine(asked[i], it.el[asked[i]])],
                          o.del, MapDel(it.el, ToSet(asked))))
=============================================================================
