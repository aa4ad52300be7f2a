------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* What a connection adds to single commands: pipelines, streams of        *)
(* commands sent back to back, lines that are no command at all, and data  *)
(* blocks that do not end where they should.                               *)
(***************************************************************************)
EXTENDS Bin

PipeMax == 500

(* a line that is refused before it reaches any item *)
BadReply(w) ==
  CASE w = "format" -> BadLine
    [] w = "nomatch" -> "ERROR no matching command"
    [] w = "delta" -> "CLIENT_ERROR invalid numeric delta argument"
    [] w = "value" -> BadValue
    [] w = "count" -> "CLIENT_ERROR too large count value"
    [] w = "usage" -> "CLIENT_ERROR bad command line format.  Usage: delete <key> [noreply]"
    [] w = "field" -> "CLIENT_ERROR too long field name"
    [] w = "cursor" -> "CLIENT_ERROR invalid cursor."
    [] w = "scancount" -> "CLIENT_ERROR bad count value"
    [] w = "scantype" -> "CLIENT_ERROR bad item type"
    [] w = "stat" -> "ERROR no matching stat"
    [] w = "noargs" -> "ERROR no arguments"
    [] w = "chunk" -> "CLIENT_ERROR bad data chunk"
    [] w = "large" -> "CLIENT_ERROR too large value"

(* one command, or one line refused: bad lines change nothing *)
Single(st, o) ==
  LET x == IF o.c = "bad" THEN TallyBad(st, o, R(st, <<BadReply(o.w)>>))
           ELSE IF o.c \in AdminCommands THEN Admin(st, o)
           ELSE IF o.c = "bin" THEN Packets(st, o)
           ELSE IF o.c = "acct" THEN AcctReading(Reap(st, o), o)
           ELSE IF o.c = "scan" THEN ScanStep(st, o)
           ELSE IF o.c = "crowd" THEN Crowd(st, o)
           ELSE IF o.c \in TendCommands THEN Tending(st, o)
           ELSE LET s == Reap(st, o) IN Tally(s, o, Do(s, o))
  IN IF "nr" \in DOMAIN o THEN [x EXCEPT !.r = <<>>] ELSE x

(* severe replies end a pipeline *)
Severe(r) == \E p \in {"CLIENT_ERROR", "SERVER_ERROR", "ERROR"} : StartsWith(r, p)

(* A pipeline: every command but the last carries "pipe".  The commands run one by one, the replies are held back.  After a
   severe reply, or the 500th with more to come, the rest is swallowed; only a last command that is itself malformed still
   gets its own reply. *)
RECURSIVE PipeRun(_, _, _, _)
PipeRun(st, ops, i, acc) ==
  LET x == Single(st, ops[i])
      rs == acc \o x.r
      answer(tail) == R(x.st, <<"RESPONSE " \o N(Len(rs))>> \o rs \o <<tail>>)
      malformed == Single(x.st, ops[Len(ops)]).r = <<BadLine>>
      stop(why) == IF i < Len(ops) /\ malformed THEN R(x.st, answer(why).r \o <<BadLine>>) ELSE answer(why)
  IN IF Severe(x.r[1]) THEN stop("PIPE_ERROR bad error")
     ELSE IF i = Len(ops) THEN answer("END")
     ELSE IF i = PipeMax THEN stop("PIPE_ERROR command overflow")
     ELSE PipeRun(x.st, ops, i + 1, rs)

(* n insertions at the tail of a list, or of n members into a set, sent as one pipeline *)
PipeOps(o) == IF "rep" \in DOMAIN o THEN [i \in 1..o.rep |-> o.ops[((i - 1) % Len(o.ops)) + 1]] ELSE o.ops

(* (one command alone carries no "pipe" and is no pipeline) *)
Unit(st, o) == IF o.c = "pipe" /\ Len(PipeOps(o)) > 1 THEN PipeRun(st, PipeOps(o), 1, <<>>) ELSE IF o.c = "pipe" THEN Single(st, PipeOps(o)[1]) ELSE Single(st, o)

(* commands sent back to back are answered back to back, wherever the stream is cut *)
RECURSIVE StreamRun(_, _, _, _)
StreamRun(st, ops, i, acc) ==
  IF i > Len(ops) THEN R(st, acc)
  ELSE LET x == Unit(st, ops[i]) IN StreamRun(x.st, ops, i + 1, acc \o x.r)

Serve(st, o) == Attend(Watch(IF o.c = "stream" THEN StreamRun(st, o.ops, 1, <<>>) ELSE Unit(st, o)), o)
=============================================================================
