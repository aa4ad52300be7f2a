-------------------------------- MODULE Bin --------------------------------
(***************************************************************************)
(* The binary protocol.  A packet p is                                     *)
(*   p.o     its ASCII counterpart: the same command on the same cache     *)
(*   p.q     whether it is the quiet variant                               *)
(*   p.id    the cas id it carries, "" for none                            *)
(*   p.seen  the cas id in the answer, "0" for none: the server's choice   *)
(* A response is told as lines: the status word, with the cas id when it   *)
(* carries one, then what the body holds in the terms of the ASCII reply;  *)
(* "#i" in front says that it answers packet i of those sent together.     *)
(***************************************************************************)
EXTENDS Tend

BinWord(c, w) ==
  CASE w \in {"STORED", "CREATED_STORED", "REPLACED", "CREATED", "DELETED", "DELETED_DROPPED", "UPDATED", "OK"} -> "OK"
    [] w = "NOT_FOUND" -> IF c = "flush_prefix" THEN "PREFIX_ENOENT" ELSE "KEY_ENOENT"
    [] w = "NOT_STORED" -> IF c = "add" THEN "KEY_EEXISTS" ELSE IF c = "replace" THEN "KEY_ENOENT" ELSE "NOT_STORED"
    [] w = "EXISTS" -> "KEY_EEXISTS"
    [] w = "TYPE_MISMATCH" -> "EBADTYPE"
    [] w = "OVERFLOWED" -> "EOVERFLOW"
    [] w = "OUT_OF_RANGE" -> IF c = "lop insert" THEN "EINDEXOOR" ELSE "EBKEYOOR"
    [] w = "NOT_FOUND_ELEMENT" -> IF c \in {"lop get", "lop delete"} THEN "EINDEXOOR" ELSE "ELEM_ENOENT"
    [] w = "ELEMENT_EXISTS" -> "ELEM_EEXISTS"
    [] w = "BKEY_MISMATCH" -> "EBADBKEY"
    [] w = "EFLAG_MISMATCH" -> "EBADEFLAG"
    [] w = "UNREADABLE" -> "UNREADABLE"
    [] w = "ATTR_ERROR not found" -> "EBADATTR"
    [] w \in {"ATTR_ERROR bad value", BadValue} -> "EBADVALUE"
    [] w = BadLine -> "EINVAL"
    [] w = "CLIENT_ERROR cannot increment or decrement non-numeric value" -> "DELTA_BADVAL"
    [] w = "CLIENT_ERROR object too large for cache" -> "E2BIG"
    [] OTHER -> Assert(FALSE, <<"no status for", c, w>>)
BinOk(c, w) == BinWord(c, w) = "OK"

(* [st, w: the status, b: the body's lines, t: the reply as the statistics see it] *)
Told(x, w, b) == [st |-> x.st, w |-> w, b |-> b, t |-> x.r]
Answer(c, x) == Told(x, BinWord(c, x.r[1]), <<>>)

(* storing: with an id it is a compare-and-swap; the answer tells the id of the new version *)
NewId(p, x, b) ==
  LET k == p.o.k  it == It(x.st, k) IN
  IF p.q \/ ~Has(x.st, k) THEN Told(x, "OK", b)          \* (hidden at once by a flush: whatever id)
  ELSE IF p.seen \in Used(x.st, k) \/ p.seen = "0" THEN Told(x, "OK with a cas id never shown for another version of " \o k, b)
  ELSE Told([x EXCEPT !.st.items[k].cas = p.seen, !.st.used = (k :> (Used(x.st, k) \cup {p.seen})) @@ @], "OK " \o p.seen, b)
Changed(st, k, id) == IsKv(st, k) /\ It(st, k).cas # id        \* (an id never shown cannot match)
BinStore(st, p) ==
  LET o == p.o  attach == o.c \in {"append", "prepend"}
      x == IF p.id = "" THEN Do(st, o)
           ELSE IF attach THEN (IF Changed(st, o.k, p.id) THEN Fail(st, "EXISTS") ELSE Do(st, o))
           ELSE Do(st, [o EXCEPT !.c = "cas"] @@ [id |-> p.id])
  IN IF BinOk(o.c, x.r[1]) THEN NewId(p, x, <<>>) ELSE Answer(o.c, x)
BinArith(st, p) ==
  LET x == Do(st, p.o) IN
  IF x.r[1] \in {"NOT_FOUND", "TYPE_MISMATCH"} \/ StartsWith(x.r[1], "CLIENT_ERROR") THEN Answer(p.o.c, x)
  ELSE NewId(p, x, x.r)
BinDelete(st, p) ==
  LET k == p.o.k IN
  IF p.id # "" /\ Has(st, k) /\ (~IsKv(st, k) \/ Changed(st, k, p.id)) THEN Answer("delete", Fail(st, "EXISTS"))
  ELSE Answer("delete", Do(st, p.o))
BinGet(st, p) ==
  LET k == p.o.ks[1]  x == Gets(st, p.o @@ [cas |-> <<p.seen>>]) IN
  IF IsKv(st, k) THEN Told(x, "HIT", SubSeq(x.r, 1, Len(x.r) - 1)) ELSE IF IsColl(st, k) THEN Told(x, "EBADTYPE", <<>>) ELSE Told(x, "KEY_ENOENT", IF p.o.c = "getk" THEN <<k>> ELSE <<>>)

(* reads of collections: the body ends with the last element *)
BinRead(c, x) == IF StartsWith(x.r[1], "VALUE ") THEN Told(x, "OK", SubSeq(x.r, 1, Len(x.r) - 1)) ELSE Answer(c, x)
BinAttr(st, p) ==
  IF ~Has(st, p.o.k) THEN Answer("getattr", Do(st, p.o))
  ELSE LET it == It(st, p.o.k)
           ns == <<"type", "flags", "expiretime">> \o (IF it.ty \in {"kv", "map"} THEN <<>> ELSE <<"count", "maxcount", "overflowaction", "readable">>)
                 \o (IF it.ty = "b+tree" THEN <<"maxbkeyrange">> ELSE <<>>)
       IN Told(Do(st, p.o), "OK", [i \in 1..Len(ns) |-> ns[i] \o "=" \o AttrVal(st, it, ns[i])])

BinDo(st, p) ==
  LET o == p.o  c == o.c IN
  CASE c \in Storage -> BinStore(st, p)
    [] c \in {"incr", "decr"} -> BinArith(st, p)
    [] c = "delete" -> BinDelete(st, p)
    [] c \in {"get", "getk"} -> BinGet(st, p)
    [] c \in {"lop get", "sop get"} -> BinRead(c, Do(st, o))
    [] c = "sop exist" -> LET x == Do(st, o) IN IF x.r[1] \in {"EXIST", "NOT_EXIST"} THEN Told(x, "OK", x.r) ELSE Answer(c, x)
    [] c = "bop update" -> Answer(c, BopChange(st, o))       \* (nothing to change is no error here)
    [] c \in {"lop create", "sop create", "bop create"} ->     \* (an overflow action the type does not have counts as none given)
         Answer(c, Do(st, IF OvflOk(CASE c = "lop create" -> "list" [] c = "sop create" -> "set" [] OTHER -> "b+tree", o.cr.ov) THEN o ELSE [o EXCEPT !.cr.ov = ""]))
    [] c = "getattr" -> BinAttr(st, p)
    [] c = "noop" -> Told(R(st, <<>>), "OK", <<>>)
    [] c = "version" -> Told(R(st, <<>>), "OK", <<"VERSION">>)
    [] c = "toolarge" -> Told(R(st, <<>>), "E2BIG", <<>>)       \* an element beyond the limit
    [] c = "badlength" -> Told(R(st, <<>>), "EINVAL", <<>>)     \* a bkey or flag longer than its field
    [] c = "unknown" -> Told(R(st, <<>>), "UNKNOWN_COMMAND", <<>>)
    [] c = "malformed" -> Told(R(st, <<>>), "EINVAL", <<>>)     \* lengths that do not fit the command: the end of the connection
    [] c = "quit" -> Told(R(st, <<>>), "OK", <<>>)
    [] OTHER -> Answer(c, Do(st, o))

(* quiet commands do not tell success, and the quiet gets do not tell a miss *)
Silent(p, x) == p.q /\ IF p.o.c \in {"get", "getk"} THEN x.w = "KEY_ENOENT" ELSE x.w = "OK"
BinAnswer(p, x, i) ==
  IF Silent(p, x) THEN <<>>
  ELSE LET at == "#" \o N(i) \o " " IN IF x.w = "HIT" THEN <<at \o "OK">> \o x.b ELSE <<at \o x.w>> \o x.b
Uncounted == {"noop", "version", "badlength", "unknown", "malformed", "quit"}
BinOne(st, p) ==
  LET s == Reap(st, p.o)  x == BinDo(s, p) IN
  IF p.o.c \in Uncounted THEN x
  ELSE IF p.o.c = "toolarge" THEN [x EXCEPT !.st = TallyBad(s, [w |-> "large", of |-> p.o.op, k |-> p.o.k], [st |-> x.st]).st]
  ELSE LET o == IF p.o.c = "getk" THEN [p.o EXCEPT !.c = "get"]
                ELSE IF p.o.c \in {"set", "add", "replace"} /\ p.id # "" THEN [p.o EXCEPT !.c = "cas"] ELSE p.o
           y == Tally(s, o, [st |-> x.st, r |-> x.t])
       IN [x EXCEPT !.st = y.st, !.w = IF p.o.c = "flush_prefix" THEN BinWord(p.o.c, y.r[1]) ELSE @]
RECURSIVE BinRun(_, _, _, _)
BinRun(st, ps, i, acc) ==
  IF i > Len(ps) THEN R(st, acc)
  ELSE LET x == BinOne(st, ps[i])  a == acc \o BinAnswer(ps[i], x, i) IN
       IF ps[i].o.c \in {"malformed", "quit"} THEN R(x.st, a \o <<"CLOSED">>) ELSE BinRun(x.st, ps, i + 1, a)
Packets(st, o) == BinRun(st, o.ps, 1, <<>>)
=============================================================================
