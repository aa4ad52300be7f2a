------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Accepts a recorded run of the server exactly when the specification     *)
(* answers every recorded command with the bytes the server wrote.         *)
(* The log is one JSON object per line: o the command, r the raw reply.    *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Start == IF "now" \in DOMAIN Log[1] THEN Log[1].now ELSE 0

(* does the raw text consist of the reply lines, each followed by CR LF? *)
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ MatchFrom(raw, e + 2, r, i + 1)
Matches(raw, r) == MatchFrom(raw, 1, r, 1)

VARIABLES l, st
Init == l = 2 /\ st = InitState(Start)
Next == /\ l <= Len(Log)
        /\ LET x == Serve(st, Log[l].o) IN
           IF Matches(Log[l].r, x.r) THEN st' = x.st /\ l' = l + 1
           ELSE PrintT("MISMATCH " \o ToJson([l |-> l, o |-> Log[l].o, want |-> x.r, got |-> Log[l].r])) /\ FALSE
Spec == Init /\ [][Next]_<<l, st>>
View == l
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
