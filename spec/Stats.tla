------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* The statistics: how often each command was given and what became of it, *)
(* for the whole server and, while "stats detail" is on, for every prefix. *)
(*   cnt.on   whether the specification is counting (the first "stats      *)
(*            reset" of a run switches it on)                              *)
(*   cnt.n    counter -> how often                                         *)
(*   cnt.det  whether details are kept                                     *)
(*   cnt.d    prefix -> field -> how often                                 *)
(***************************************************************************)
EXTENDS Arcus

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Bump(f, x, n) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + n] ELSE (x :> n) @@ f
RECURSIVE BumpAll(_, _, _)
BumpAll(f, xs, i) == IF i > Len(xs) THEN f ELSE BumpAll(Bump(f, xs[i], 1), xs, i + 1)

(* ------------------------------------------------- what became of a command *)
Turned(w) == \E p \in {"CLIENT_ERROR", "SERVER_ERROR", "ERROR"} : StartsWith(w, p)
Unmet == {"TYPE_MISMATCH", "BKEY_MISMATCH", "EFLAG_MISMATCH", "EXISTS", "ELEMENT_EXISTS", "OVERFLOWED", "OUT_OF_RANGE",
          "UNREADABLE", "NOT_STORED", "ATTR_ERROR not found", "ATTR_ERROR bad value"}
Outcome(w) == IF w = "NOT_FOUND" THEN "missing" ELSE IF w = "NOT_FOUND_ELEMENT" THEN "none"
              ELSE IF w = "UNREADABLE" THEN "unreadable" ELSE IF w = "OUT_OF_RANGE" THEN "range"
              ELSE IF w = "CLIENT_ERROR cannot increment or decrement non-numeric value" THEN "unmet"
              ELSE IF Turned(w) \/ w = "NOTHING_TO_UPDATE" THEN "refused" ELSE IF w \in Unmet THEN "unmet" ELSE "hit"

(* the counters of a command; family and the name of the counters *)
Named(c) ==
  CASE c = "lop insert" -> "lop_insert" [] c = "lop delete" -> "lop_delete" [] c = "lop get" -> "lop_get" [] c = "lop create" -> "lop_create"
    [] c = "sop insert" -> "sop_insert" [] c = "sop delete" -> "sop_delete" [] c = "sop get" -> "sop_get" [] c = "sop exist" -> "sop_exist" [] c = "sop create" -> "sop_create"
    [] c \in {"mop insert", "mop upsert"} -> "mop_insert" [] c = "mop update" -> "mop_update" [] c = "mop delete" -> "mop_delete" [] c = "mop get" -> "mop_get" [] c = "mop create" -> "mop_create"
    [] c \in {"bop insert", "bop upsert"} -> "bop_insert" [] c = "bop update" -> "bop_update" [] c = "bop delete" -> "bop_delete" [] c = "bop create" -> "bop_create"
    [] c = "bop get" -> "bop_get" [] c = "bop count" -> "bop_count" [] c = "bop incr" -> "bop_incr" [] c = "bop decr" -> "bop_decr"
    [] c = "bop position" -> "bop_position" [] c = "bop pwg" -> "bop_pwg" [] c = "bop gbp" -> "bop_gbp" [] c = "bop mget" -> "bop_mget" [] c = "bop smget" -> "bop_smget"
    [] c = "touch" -> "setattr" [] OTHER -> c
HitMiss == {"lop insert", "sop insert", "mop insert", "mop upsert", "bop insert", "bop upsert", "incr", "decr", "delete", "getattr", "setattr", "touch", "sop exist", "bop count"}
Elements == {"lop delete", "lop get", "sop delete", "sop get", "mop update", "mop delete", "mop get", "bop update", "bop delete", "bop get", "bop incr", "bop decr",
             "bop position", "bop pwg", "bop gbp"}
Creates == {"lop create", "sop create", "mop create", "bop create"}
(* reading an unreadable collection is a miss, and so is a b+tree range that was trimmed away *)
ElemReads == {"lop get", "sop get", "mop get", "bop get", "sop exist", "bop count", "bop position", "bop pwg", "bop gbp"}
Missed(c, oc) == oc = "missing" \/ (oc = "unreadable" /\ c \in ElemReads) \/ (oc = "range" /\ c = "bop get")

Counts1(c, oc) ==
  LET n == Named(c) IN
  IF oc = "refused" THEN <<>>
  ELSE IF c \in HitMiss THEN <<"cmd_" \o n>> \o (IF oc = "hit" THEN <<n \o "_hits">> ELSE IF Missed(c, oc) THEN <<n \o "_misses">> ELSE <<>>)
  ELSE IF c \in Elements THEN <<"cmd_" \o n>> \o (IF oc = "hit" THEN <<n \o "_elem_hits">> ELSE IF oc = "none" THEN <<n \o "_none_hits">>
                                                  ELSE IF Missed(c, oc) THEN <<n \o "_misses">> ELSE <<>>)
  ELSE IF c \in Creates \cup {"bop smget"} THEN <<"cmd_" \o n>> \o (IF oc = "hit" THEN <<n \o "_oks">> ELSE <<>>)
  ELSE <<>>
(* the outcome for each key of a bop mget, in order *)
RECURSIVE Words(_, _)
Words(s, i) == IF i > Len(s) THEN <<"">> ELSE IF Ch(s, i) = " " THEN <<"">> \o Words(s, i + 1)
               ELSE LET w == Words(s, i + 1) IN <<Ch(s, i) \o Head(w)>> \o Tail(w)
MgetOutcomes(r) == [i \in 1..Len(SelectSeq(r, LAMBDA x : StartsWith(x, "VALUE "))) |->
                    Outcome(Words(SelectSeq(r, LAMBDA x : StartsWith(x, "VALUE "))[i], 1)[3])]
Storage == {"set", "add", "replace", "append", "prepend"}
Counts(st, o, r) ==
  LET c == o.c  oc == IF r = <<>> THEN "hit" ELSE Outcome(r[1]) IN
  CASE c \in Storage -> <<"cmd_set">>
    [] c = "cas" -> <<"cmd_cas">> \o (IF r[1] = "STORED" THEN <<"cas_hits">> ELSE IF r[1] = "EXISTS" THEN <<"cas_badval">> ELSE <<"cas_misses">>)
    [] c \in {"get", "mget", "gets", "mgets"} ->
         FlattenSeq([i \in 1..Len(o.ks) |-> <<"cmd_get", IF IsKv(st, o.ks[i]) THEN "get_hits" ELSE "get_misses">>])
    [] c = "touch" /\ r[1] = BadValue -> <<"cmd_setattr">>
    [] c = "flush_all" -> IF oc = "refused" THEN <<>> ELSE <<"cmd_flush">>
    [] c = "flush_prefix" -> IF oc = "refused" THEN <<>> ELSE <<"cmd_flush_prefix">>
    [] c = "bop mget" -> IF oc = "refused" THEN <<>> ELSE
         LET ws == MgetOutcomes(r) IN <<"cmd_bop_mget", "bop_mget_oks">> \o FlattenSeq([i \in 1..Len(ws) |-> Counts1("bop get", ws[i])])
    [] OTHER -> Counts1(c, oc)

(* -------------------------------------------------------- details by prefix *)
PrefixOf(k) == LET p == KeyPrefixes(k) IN IF p = {} THEN NullPrefix ELSE CHOOSE x \in p : TRUE
(* field of the command, field of its success, and whether an element that is not there is no failure *)
Code(c) ==
  CASE c = "lop create" -> <<"lcs">> [] c = "lop insert" -> <<"lis", "lih", FALSE>> [] c = "lop delete" -> <<"lds", "ldh", TRUE>> [] c = "lop get" -> <<"lgs", "lgh", TRUE>>
    [] c = "sop create" -> <<"scs">> [] c = "sop insert" -> <<"sis", "sih", FALSE>> [] c = "sop delete" -> <<"sds", "sdh", TRUE>> [] c = "sop get" -> <<"sgs", "sgh", TRUE>>
    [] c = "sop exist" -> <<"ses", "seh", FALSE>>
    [] c = "mop create" -> <<"mcs">> [] c \in {"mop insert", "mop upsert"} -> <<"mis", "mih", FALSE>> [] c = "mop update" -> <<"mus", "muh", FALSE>>
    [] c = "mop delete" -> <<"mds", "mdh", TRUE>> [] c = "mop get" -> <<"mgs", "mgh", TRUE>>
    [] c = "bop create" -> <<"bcs">> [] c \in {"bop insert", "bop upsert"} -> <<"bis", "bih", FALSE>> [] c = "bop update" -> <<"bus", "buh", TRUE>>
    [] c = "bop delete" -> <<"bds", "bdh", TRUE>> [] c = "bop incr" -> <<"bps", "bph", TRUE>> [] c = "bop decr" -> <<"bms", "bmh", TRUE>>
    [] c = "bop get" -> <<"bgs", "bgh", TRUE>> [] c = "bop count" -> <<"bns", "bnh", FALSE>> [] c = "bop position" -> <<"pfs", "pfh", TRUE>>
    [] c = "bop pwg" -> <<"pgs", "pgh", TRUE>> [] c = "bop gbp" -> <<"gps", "gph", TRUE>>
    [] c \in Storage \cup {"cas"} -> <<"set">> [] c = "delete" -> <<"del">> [] c = "incr" -> <<"inc">> [] c = "decr" -> <<"dec">>
    [] c = "getattr" -> <<"gas">> [] c \in {"setattr", "touch"} -> <<"sas">> [] OTHER -> <<>>
Fields(c, oc) == LET x == Code(c) IN
  IF Len(x) < 3 THEN x ELSE IF oc = "hit" \/ (oc = "none" /\ x[3]) THEN <<x[1], x[2]>> ELSE <<x[1]>>
(* <<prefix, field>> for everything noted down about a command; whether a refused attribute command is noted depends on who
   refuses it: "gas?" and "sas?" stand for once or not at all *)
Details(st, o, r) ==
  LET c == o.c  oc == IF r = <<>> THEN "hit" ELSE Outcome(r[1])
      under(k, fs) == [i \in 1..Len(fs) |-> <<PrefixOf(k), fs[i]>>] IN
  CASE c \in {"get", "mget", "gets", "mgets"} -> FlattenSeq([i \in 1..Len(o.ks) |-> under(o.ks[i], IF IsKv(st, o.ks[i]) THEN <<"get", "hit">> ELSE <<"get">>)])
    [] c = "bop mget" -> IF oc = "refused" THEN <<>> ELSE
         LET ws == MgetOutcomes(r) IN FlattenSeq([i \in 1..Len(ws) |-> under(o.ks[i], Fields("bop get", ws[i]))])
    [] c = "big" -> under(o.k, <<"set">>)
    [] c \in {"getattr", "setattr"} /\ StartsWith(r[1], "ATTR_ERROR") -> under(o.k, <<Code(c)[1] \o "?">>)
    [] c = "touch" -> under(o.k, <<"sas">>)
    [] "k" \notin DOMAIN o \/ oc = "refused" -> <<>>
    [] OTHER -> under(o.k, Fields(c, oc))
RECURSIVE NoteAll(_, _, _)
NoteAll(d, xs, i) ==
  IF i > Len(xs) THEN d
  ELSE LET p == xs[i][1]  f == IF p \in DOMAIN d THEN d[p] ELSE EmptyFn IN NoteAll((p :> Bump(f, xs[i][2], 1)) @@ d, xs, i + 1)

(* x is what o did in st *)
Tally(st, o, x) ==
  IF ~st.cnt.on THEN x
  ELSE LET n == BumpAll(st.cnt.n, Counts(st, o, x.r), 1)
           d == IF ~st.cnt.det THEN st.cnt.d
                ELSE IF o.c = "flush_prefix" THEN [p \in DOMAIN st.cnt.d \ {o.p} |-> st.cnt.d[p]]
                ELSE NoteAll(st.cnt.d, Details(st, o, x.r), 1)
           \* with details, the prefix is known as long as there are details of it
           r == IF o.c = "flush_prefix" /\ st.cnt.det /\ o.p \in DOMAIN st.cnt.d THEN <<"OK">> ELSE x.r
       IN [st |-> [x.st EXCEPT !.cnt.n = n, !.cnt.d = d], r |-> r]

(* a refused data block of a known command: an element too large counts, a block without its end does not; storage
   commands count when the block has been read *)
TallyBad(st, o, x) ==
  IF ~st.cnt.on \/ "of" \notin DOMAIN o THEN x
  ELSE LET large == o.w = "large"
           n == IF o.of \in Storage THEN <<"cmd_set">> ELSE IF o.of = "cas" THEN <<"cmd_cas">> ELSE IF large THEN <<"cmd_" \o Named(o.of)>> ELSE <<>>
           d == IF ~st.cnt.det THEN <<>> ELSE IF o.of \in Storage \cup {"cas"} THEN <<<<PrefixOf(o.k), "set">>>>
                ELSE IF large THEN <<<<PrefixOf(o.k), Code(o.of)[1]>>>> ELSE <<>>
       IN [x EXCEPT !.st.cnt.n = BumpAll(@, n, 1), !.st.cnt.d = NoteAll(@, d, 1)]

(* --------------------------------------------------------------- the readings *)
Value(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
(* o.got: every counter the server reported *)
Reading(st, o) ==
  LET got == o.got  n == st.cnt.n
      bad == {x \in DOMAIN got \cup DOMAIN n : Value(got, x) # Value(n, x) \/ x \notin DOMAIN got}
  IN R(st, SetToSeq({x \o " " \o N(Value(n, x)) : x \in bad}))
Only(f, ps) == [p \in DOMAIN f \cap ToSet(ps) |-> f[p]]
DetailReading(st, o) ==         \* (some prefixes only, when o.ps names them)
  LET got == o.got  d == IF o.ps = <<>> THEN st.cnt.d ELSE Only(st.cnt.d, o.ps)
      sure(p) == {x \in DOMAIN d[p] : x \notin {"gas?", "sas?"}}
      f(p) == {x \in DOMAIN got[p] : got[p][x] < Value(d[p], x) \/ got[p][x] > Value(d[p], x) + Value(d[p], x \o "?")} \cup (sure(p) \ DOMAIN got[p])
      lost == {p \in DOMAIN d \ DOMAIN got : sure(p) # {}}  more == DOMAIN got \ DOMAIN d
  IN R(st, SetToSeq({"no prefix " \o p : p \in lost} \cup {"unknown prefix " \o p : p \in more}
                    \cup UNION {{p \o " " \o x \o " " \o N(Value(d[p], x)) : x \in f(p)} : p \in DOMAIN d \cap DOMAIN got}))
Admin(st, o) ==
  CASE o.c = "stats reset" -> R([st EXCEPT !.cnt.on = TRUE, !.cnt.n = EmptyFn, !.cnt.d = EmptyFn], <<"RESET">>)
    [] o.c = "stats" -> Reading(st, o)
    [] o.c = "detail on" -> R([st EXCEPT !.cnt.det = TRUE], <<"OK">>)
    [] o.c = "detail off" -> R([st EXCEPT !.cnt.det = FALSE], <<"OK">>)
    [] o.c = "detail dump" -> DetailReading(st, o)
AdminCommands == {"stats reset", "stats", "detail on", "detail off", "detail dump"}
=============================================================================
