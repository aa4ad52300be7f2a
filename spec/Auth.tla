-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* A server that asks for authentication, and several connections to it    *)
(* on both protocols.  A connection is                                     *)
(*   pr   "a" or "b": the protocol it speaks                               *)
(*   ok   whether it may use the cache                                     *)
(*   m    the mechanism under way, "" for none                             *)
(*   u    the user named so far in it, "?" for none yet                    *)
(*   done whether an attempt succeeded: the library takes no second one    *)
(*        until one was refused                                            *)
(* and a recorded run is accepted exactly when every reply is the one that *)
(* a connection of this standing is to get.                                *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Users == Log[1].cfg.users           \* the pairs of name and password
Correct(u, p) == \E i \in 1..Len(Users) : Users[i] = <<u, p>>

Nobody(pr) == [pr |-> pr, ok |-> FALSE, m |-> "", u |-> "?", done |-> FALSE]

Unauthorized == "CLIENT_ERROR unauthorized"
NoMatch == "ERROR no matching command"

(* ---- authentication: [cn, w, ch]: the connection afterwards, "granted", "refused" or "more", and the challenge ---- *)
Say(cn, w, ch) == [cn |-> cn, w |-> w, ch |-> ch]
(* no attempt that is not completed grants anything; on the binary protocol it ends what was granted *)
Short(cn) == IF cn.pr = "b" THEN FALSE ELSE cn.ok
Granted(cn) == Say([cn EXCEPT !.ok = TRUE, !.done = TRUE, !.m = "", !.u = "?"], "granted", "")
Refused(cn) == Say([cn EXCEPT !.ok = Short(cn), !.m = "", !.u = "?"], "refused", "")
More(cn, m, u, ch) == Say([cn EXCEPT !.ok = Short(cn), !.m = m, !.u = u], "more", ch)
Verdict(cn, u, p) == IF Correct(u, p) THEN Granted(cn) ELSE Refused(cn)
(* what the client said, for the mechanism m at this point *)
Heard(cn, m, o) ==
  CASE cn.done -> Refused(cn)
    [] m = "VPONE" -> IF o.split THEN Verdict(cn, o.user, o.pass) ELSE Refused(cn)
    [] m = "VPTWO" -> IF cn.u = "?" THEN More(cn, m, o.user, "prove " \o o.user) ELSE Verdict(cn, cn.u, o.user)
Anew(x) == IF x.w = "refused" THEN [x EXCEPT !.cn.done = FALSE] ELSE x
Attempt(cn0, o) ==
  IF o.m # "" THEN LET cn == [cn0 EXCEPT !.m = "", !.u = "?"] IN
    IF o.m \notin {"VPONE", "VPTWO"} THEN Anew(Refused(cn))
    ELSE IF ~o.split /\ o.user = "" THEN More(cn, o.m, "?", "")
    ELSE Anew(Heard(cn, o.m, o))
  ELSE IF cn0.m = "" THEN Refused(cn0) ELSE Heard(cn0, cn0.m, o)
AuthLines(x) ==
  IF x.cn.pr = "a" THEN CASE x.w = "granted" -> <<"SASL_OK">> [] x.w = "refused" -> <<"AUTH_ERROR">>
                          [] OTHER -> <<"SASL_CONTINUE " \o N(Len(x.ch)), x.ch>>
  ELSE CASE x.w = "granted" -> <<"OK", "Authenticated">> [] x.w = "refused" -> <<"AUTH_ERROR">> [] OTHER -> <<"AUTH_CONTINUE", x.ch>>

(* ---- the text protocol serves what concerns only its own keys to anyone ---- *)
OneKey == {"set", "add", "replace", "append", "prepend", "cas", "incr", "decr", "delete", "touch", "getattr", "setattr",
           "lop create", "lop insert", "lop delete", "lop get", "sop create", "sop insert", "sop delete", "sop exist", "sop get",
           "mop create", "mop insert", "mop upsert", "mop update", "mop delete", "mop get",
           "bop create", "bop insert", "bop upsert", "bop update", "bop delete", "bop get", "bop count", "bop incr", "bop decr", "bop position", "bop pwg", "bop gbp"}
OwnKeys(o) == (o.c \in OneKey /\ StartsWith(o.k, "arcus:")) \/ (o.c \in {"get", "gets"} /\ \A i \in 1..Len(o.ks) : StartsWith(o.ks[i], "arcus:"))

(* a refusal tells nothing else; the data that followed the line may be taken for further lines that are no commands *)
Nothing(ls) == \A i \in 2..Len(ls) : StartsWith(ls[i], "ERROR") \/ StartsWith(ls[i], "CLIENT_ERROR")
TurnedAway(o, ls) == (Len(ls) > 0 /\ ls[1] = Unauthorized /\ Nothing(ls)) \/ ("nr" \in DOMAIN o /\ (ls = <<>> \/ (Len(ls) = 1 /\ ls[1] = NoMatch)))

(* ---- the run ---- *)
VARIABLES l, st, cs, tally
vars == <<l, st, cs, tally>>
Init == l = 2 /\ st = InitState(Log[1].now) /\ cs = <<>> /\ tally = [tried |-> 0, failed |-> 0]

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ MatchFrom(raw, e + 2, r, i + 1)

O == Log[l].o
Me == cs[O.cn]
Refuse(want) == PrintT("MISMATCH " \o ToJson([l |-> l, o |-> O, want |-> want, got |-> Log[l].r])) /\ FALSE
Reply(r) == IF MatchFrom(Log[l].r, 1, r, 1) THEN TRUE ELSE Refuse(r)
Holds(b, want) == IF b THEN TRUE ELSE Refuse(want)
At(i, cn) == cs' = (i :> cn) @@ cs
Keep == UNCHANGED <<st, cs, tally>>

Comes == O.c = "open" /\ At(O.cn, Nobody(O.pr)) /\ UNCHANGED <<st, tally>>
Tries == /\ O.c = "auth"
         /\ LET x == Attempt(Me, O) IN
            /\ Reply(AuthLines(x)) /\ At(O.cn, x.cn) /\ UNCHANGED st
            /\ tally' = CASE x.w = "granted" -> [tally EXCEPT !.tried = @ + 1]
                          [] x.w = "refused" -> [tally EXCEPT !.tried = @ + 1, !.failed = @ + 1]
                          [] OTHER -> tally
(* (listing the mechanisms begins anew on the binary protocol) *)
Lists == O.c = "mechs" /\ Reply(<<"VPONE VPTWO">>) /\ At(O.cn, [Me EXCEPT !.ok = Short(Me)]) /\ UNCHANGED <<st, tally>>
(* a mechanism's name has at most 32 characters; lengths beyond any data are refused *)
Strays == O.c = "badauth" /\ Reply(IF Me.pr = "b" THEN <<"EINVAL">> ELSE <<BadLine>>) /\ Keep
Tells == O.c = "authstats" /\ Holds(O.got = <<ToString(tally.tried), ToString(tally.failed)>>, <<ToString(tally.tried), ToString(tally.failed)>>) /\ Keep
(* an administrative line: what it answers is told elsewhere, here it matters whether it is done at all *)
Admins == /\ O.c = "admin"
          /\ IF Me.ok THEN Holds(Log[l].r # Unauthorized \o "\r\n", "to be done") ELSE Reply(<<Unauthorized>>)
          /\ Keep
(* any opcode at all, whatever follows it *)
Raws == /\ O.c = "raw"
        /\ Holds(~Me.ok, "an opcode without authentication") /\ Reply(<<"#1 AUTH_ERROR", "CLOSED">>)
        /\ At(O.cn, Nobody("b")) /\ UNCHANGED <<st, tally>>
Apart == {"open", "auth", "mechs", "badauth", "authstats", "admin", "raw"}
Free == \/ Len(O.ps) = 1 /\ O.ps[1].o.c = "version"
Works ==
  /\ O.c \notin Apart
  /\ IF O.c = "clock" \/ Me.ok \/ (O.c # "bin" /\ OwnKeys(O)) \/ (O.c = "bin" /\ Free)
     THEN LET x == Serve(st, O)  out == O.c = "bin" /\ O.ps[Len(O.ps)].o.c \in {"malformed", "quit"} IN
          Reply(x.r) /\ st' = x.st /\ UNCHANGED tally /\ (IF out THEN At(O.cn, Nobody("b")) ELSE UNCHANGED cs)
     ELSE IF O.c = "bin"
     THEN Reply(<<"#1 AUTH_ERROR", "CLOSED">>) /\ At(O.cn, Nobody("b")) /\ UNCHANGED <<st, tally>>
     ELSE Holds(TurnedAway(O, O.lines), Unauthorized) /\ Keep
Next == l <= Len(Log) /\ l' = l + 1 /\ (Comes \/ Tries \/ Lists \/ Strays \/ Tells \/ Admins \/ Raws \/ Works)
Spec == Init /\ [][Next]_vars
View == l
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
