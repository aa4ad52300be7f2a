------------------------------ MODULE Persist ------------------------------
(***************************************************************************)
(* Runs of a persistent server: commands, crashes and restarts.            *)
(* A restart shows the state some prefix of the commands led to.  hist has  *)
(* the states since the last command whose effect has been promised (an     *)
(* answered update, marked p by the driver: the server has waited for its   *)
(* log by then), so no such command may be lost, nor any before it.  (One that  *)
(* changes nothing, like a setattr of what the item does not have, is not logged.)  o.fl are commands sent     *)
(* when the server stopped and not answered: some first part of them may     *)
(* have been done.  soft: the b+trees that may come back without their       *)
(* trimmed mark, because a rejected insertion has set it, which is not       *)
(* logged (a known finding).  When logging is asynchronous nothing is promised.        *)
(* Log entries as in Trace; several behaviours may explain one run.         *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, SequencesExt, FiniteSetsExt

Log == ndJsonDeserialize(IOEnv.TRACE)
Start == IF "now" \in DOMAIN Log[1] THEN Log[1].now ELSE 0

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ MatchFrom(raw, e + 2, r, i + 1)
Matches(raw, r) == MatchFrom(raw, 1, r, 1)

(* what a restart keeps: every item that was visible, and the time.  (Cas ids are not promised to last.) *)
Kept(s, it) == IF it.ty = "kv" THEN [it EXCEPT !.tm = s.now, !.cas = ""] ELSE [it EXCEPT !.tm = s.now]
Restarted(s, now) ==
  LET t == [s EXCEPT !.now = now] IN
  [InitState(now) EXCEPT !.items = [k \in LiveKeys(t) |-> Kept(t, t.items[k])]]

(* what the server may have chosen for a command whose answer nobody saw *)
Chosen(s, o) ==
  IF o.c \notin {"sop get", "mop get"} \/ "pick" \in DOMAIN o THEN {o}
  ELSE IF o.k \notin LiveKeys(s) \/ s.items[o.k].ty # (IF o.c = "sop get" THEN "set" ELSE "map") THEN {o @@ [pick |-> <<>>]}
  ELSE LET el == s.items[o.k].el IN
       IF o.c = "mop get" THEN {o @@ [pick |-> SetToSeq(DOMAIN el)]}
       ELSE IF o.n = 0 \/ o.n >= Cardinality(el) THEN {o @@ [pick |-> SetToSeq(el)]}
       ELSE {o @@ [pick |-> SetToSeq(x)] : x \in kSubset(o.n, el)}
(* the states the first n of some commands may lead to *)
RECURSIVE After(_, _, _)
After(s, ops, n) == IF n = 0 THEN {s}
                    ELSE UNION {{Single(t, c).st : c \in Chosen(t, ops[n])} : t \in After(s, ops, n - 1)}

(* the items a rejected insertion marks as trimmed *)
RECURSIVE MarkedFrom(_, _, _)
MarkedFrom(s, ops, i) ==
  IF i > Len(ops) THEN {}
  ELSE LET x == Single(s, ops[i]) k == ops[i].k IN
       (IF ops[i].c \in {"bop insert", "bop upsert"} /\ k \in LiveKeys(x.st) /\ x.st.items[k].ty = "b+tree" /\ x.st.items[k].tr /\ ("nr" \in DOMAIN ops[i] \/ x.r[1] = "OUT_OF_RANGE")
        THEN {k} ELSE {}) \cup MarkedFrom(x.st, ops, i + 1)
Marked(s, o) == IF o.c = "pipe" THEN MarkedFrom(s, o.ops, 1) ELSE IF o.c \in {"bop insert", "bop upsert"} THEN MarkedFrom(s, <<o>>, 1) ELSE {}
Unmark(s, ks) == [s EXCEPT !.items = [k \in DOMAIN s.items |-> IF k \in ks /\ s.items[k].ty = "b+tree" THEN [s.items[k] EXCEPT !.tr = FALSE] ELSE s.items[k]]]

VARIABLES l, st, hist, soft
(* the states a command passes through *)
Passed(s, o) == IF o.c \in {"pipe", "stream"} THEN UNION {After(s, o.ops, n) : n \in 0..Len(o.ops)} ELSE {s}
Init == l = 2 /\ st = InitState(Start) /\ hist = {} /\ soft = {}
Step == LET e == Log[l] IN
  /\ e.o.c # "restart"
  /\ LET x == Serve(st, e.o) IN
     IF Matches(e.r, x.r)
     THEN st' = x.st /\ soft' = soft \cup Marked(st, e.o) /\ l' = l + 1 /\ hist' = IF "p" \in DOMAIN e /\ x.st # st THEN {} ELSE (hist \cup Passed(st, e.o)) \ {x.st}
     ELSE PrintT("MISMATCH " \o ToJson([l |-> l, o |-> e.o, want |-> x.r, got |-> e.r])) /\ FALSE
Restart == LET e == Log[l] IN
  /\ e.o.c = "restart"
  /\ l' = l + 1 /\ hist' = {} /\ soft' = soft
  /\ \E s \in UNION {After(st, e.o.fl, n) : n \in 0..Len(e.o.fl)} \cup (IF "all" \in DOMAIN e.o THEN {} ELSE hist) :
     \E ks \in SUBSET soft : st' = Restarted(Unmark(s, ks), e.o.now)
Next == l <= Len(Log) /\ (Step \/ Restart)
Spec == Init /\ [][Next]_<<l, st, hist, soft>>
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
