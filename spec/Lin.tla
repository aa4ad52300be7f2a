-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Concurrent clients.  A recorded run is a sequence of rounds; in a round *)
(* every connection has sent a queue of commands at once and all queues    *)
(* are executed side by side, and all of them have been answered before    *)
(* the next round.  The run is accepted when there is an order of the      *)
(* commands that keeps the order of the rounds and of every queue and in   *)
(* which each command, executed alone, gives the reply recorded for it.    *)
(* Rounds over single keys are recorded key by key: an order for every key *)
(* is an order for all of them (linearizability is local).                 *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Start == Log[1].now

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ MatchFrom(raw, e + 2, r, i + 1)
Matches(raw, r) == MatchFrom(raw, 1, r, 1)

VARIABLES l, pos, st            \* the round, how far each queue has been executed, the state of the cache
vars == <<l, pos, st>>
Zero(n) == IF n > Len(Log) THEN <<>> ELSE [i \in 1..Len(Log[n].q) |-> 0]
Done(p) == \A i \in DOMAIN p : p[i] = Len(Log[l].q[i])
Init == l = 2 /\ pos = Zero(2) /\ st = InitState(Start)
Execute(i) ==
  /\ pos[i] < Len(Log[l].q[i])
  /\ LET e == Log[l].q[i][pos[i] + 1]
         x == Serve(st, e.o)
         p == [pos EXCEPT ![i] = @ + 1]
     IN /\ Matches(e.r, x.r)
        /\ st' = x.st
        /\ IF Done(p) THEN l' = l + 1 /\ pos' = Zero(l + 1) ELSE l' = l /\ pos' = p
Next == l <= Len(Log) /\ \E i \in DOMAIN pos : Execute(i)
Spec == Init /\ [][Next]_vars
Total == FoldSeq(LAMBDA x, a : a + FoldSeq(LAMBDA y, b : b + Len(y), 0, x.q), 0, SubSeq(Log, 2, Len(Log)))
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Total))
=============================================================================
