------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* Command logging and the detection of long queries.                      *)
(*                                                                         *)
(*   cl   on, es: the lines logged since it began; what: the state shown;  *)
(*        n, files: what is shown of a run that is over                    *)
(*   lq   on, what, thr: the threshold; hits and kept: for each of the ten *)
(*        kinds of command how many were long, and the samples of it       *)
(*                                                                         *)
(* A recorded run is accepted exactly when every reply is the right one    *)
(* and the log's files and the samples tell precisely what ran.            *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

(* ---------------------------------------------------------- command logging *)
(* a line holds at most 399 characters, the time and its blank being 16 and the line's end one of them *)
LineMax == 399
Recorded(ip, line) == LET s == ip \o " " \o line IN IF Len(s) + 17 > LineMax THEN SubSeq(s, 1, 380) \o ".." ELSE s
RecordedAll(ip, lines) == [i \in 1..Len(lines) |-> Recorded(ip, lines[i])]
Unlogged == [on |-> FALSE, es |-> <<>>, what |-> "Not started", n |-> 0, skip |-> 0, files |-> 0]
Noted(cl, o) == IF cl.on THEN [cl EXCEPT !.es = @ \o RecordedAll(o.ip, o.sent)] ELSE cl
Noted1(cl, o, from) == IF cl.on THEN [cl EXCEPT !.es = @ \o RecordedAll(o.ip, SubSeq(o.sent, from, Len(o.sent)))] ELSE cl

(* ------------------------------------------------------------- long queries *)
Kinds == <<"sop get", "mop delete", "mop get", "lop insert", "lop delete", "lop get", "bop delete", "bop get", "bop count", "bop gbp">>
KeepMax == 20
Unwatched == [on |-> FALSE, what |-> "stopped by explicit request", thr |-> 0, hits |-> [c \in ToSet(Kinds) |-> 0], kept |-> [c \in ToSet(Kinds) |-> <<>>]]


DelTail(o) == IF o.del = "" THEN "" ELSE " " \o o.del
DropTail(o) == IF o.drop THEN " drop" ELSE ""
Far(i) == IF i >= 0 THEN i + 1 ELSE -i
BkText(s) == BkStr(BkType(s), BkVal(s))
RangeText(o) == BkText(o.f) \o (IF o.t = "" THEN "" ELSE ".." \o BkText(o.t)) \o (IF HasFlt(o) THEN " efilter" ELSE "")

(* how many elements of the range are looked at until n of those that pass, behind the first off, are found *)
RECURSIVE LookedAt(_, _, _, _)
LookedAt(es, o, i, left) ==
  IF i > Len(es) THEN Len(es)
  ELSE IF ~Pass(o, es[i]) THEN LookedAt(es, o, i + 1, left)
  ELSE IF left = 1 THEN i ELSE LookedAt(es, o, i + 1, left - 1)
Looks(it, o, off, n) == LET es == InOrder(it.el, BRange(o)) IN IF n = 0 THEN Len(es) ELSE LookedAt(es, o, 1, off + n)
(* to count a range that holds all there is takes no look *)
CountLooks(it, o) ==
  LET es == InOrder(it.el, BRange(o)) IN
  IF ~HasFlt(o) /\ BRange(o).dir # "one" /\ Len(es) = Len(it.el) THEN 0 ELSE Len(es)

Began(r, ws) == \E w \in ws : StartsWith(r[1], w)
ListSpan(it, o) == LET r == ListRange(Len(it.el), o.f, o.t) IN Abs(r[1] - r[2]) + 1
(* what one command is to the detection: <<>>, or <<kind, cost, key, query, whether the query alone identifies it>> *)
Weigh(s, o, r) ==
  CASE o.c = "lop insert" /\ Began(r, {"STORED", "CREATED_STORED"}) -> <<o.c, Far(o.i), o.k, ToString(o.i), TRUE>>
    [] o.c = "lop delete" /\ Began(r, {"DELETED"}) -> <<o.c, ListSpan(It(s, o.k), o) + Far(o.f), o.k, ToString(o.f) \o ".." \o ToString(o.t) \o DropTail(o), TRUE>>
    [] o.c = "lop get" /\ Began(r, {"VALUE"}) -> <<o.c, ListSpan(It(s, o.k), o) + Far(o.f), o.k, ToString(o.f) \o ".." \o ToString(o.t) \o DelTail(o), TRUE>>
    [] o.c = "sop get" /\ Began(r, {"VALUE"}) -> <<o.c, Len(o.pick), o.k, ToString(o.n) \o DelTail(o), o.n # 0>>
    [] o.c = "mop get" /\ Began(r, {"VALUE"}) -> <<o.c, Len(r) - 2, o.k, ToString(Len(o.fs)) \o DelTail(o), o.fs # <<>>>>
    [] o.c = "mop delete" /\ Began(r, {"DELETED"}) ->
         <<o.c, Cardinality(IF o.fs = <<>> THEN DOMAIN It(s, o.k).el ELSE ToSet(o.fs) \cap DOMAIN It(s, o.k).el), o.k, ToString(Len(o.fs)) \o DropTail(o), o.fs # <<>>>>
    [] o.c = "bop get" /\ Began(r, {"VALUE"}) -> <<o.c, Looks(It(s, o.k), o, o.off, o.n), o.k, RangeText(o) \o " " \o ToString(o.off) \o " " \o ToString(o.n) \o DelTail(o), TRUE>>
    [] o.c = "bop delete" /\ Began(r, {"DELETED"}) -> <<o.c, Looks(It(s, o.k), o, 0, o.n), o.k, RangeText(o) \o " " \o ToString(o.n) \o DropTail(o), TRUE>>
    [] o.c = "bop count" /\ Began(r, {"COUNT="}) -> <<o.c, CountLooks(It(s, o.k), o), o.k, RangeText(o), TRUE>>
    [] o.c = "bop gbp" /\ Began(r, {"VALUE"}) -> <<o.c, Len(r) - 2, o.k, ToString(o.pf) \o ".." \o ToString(o.pt) \o " " \o o.ord, TRUE>>
    [] OTHER -> <<>>

KeyText(k) == IF Len(k) <= 250 THEN k ELSE SubSeq(k, 1, 124) \o "..." \o SubSeq(k, Len(k) - 122, Len(k))
Full(lq) == \A c \in ToSet(Kinds) : Len(lq.kept[c]) = KeepMax
(* n alike of them *)
Struck(lq, ip, h, n) ==
  IF ~lq.on \/ h = <<>> THEN lq
  ELSE IF h[2] < lq.thr THEN lq
  ELSE LET c == h[1]  ks == lq.kept[c]
           known == \E i \in 1..Len(ks) : ks[i].q = h[4] /\ (h[5] \/ ks[i].k = KeyText(h[3]))
           x == [lq EXCEPT !.hits[c] = @ + n,
                           !.kept[c] = IF known \/ Len(ks) = KeepMax THEN ks ELSE Append(ks, [ip |-> ip, cost |-> ToString(h[2]), k |-> KeyText(h[3]), q |-> h[4]])]
       IN IF Full(x) THEN [x EXCEPT !.on = FALSE, !.what = "stopped by internal buffer overflow"] ELSE x
Judged(lq, s0, o) ==
  IF ~lq.on THEN lq
  ELSE IF o.c = "fill" THEN IF o.ty = "list" /\ ~Has(s0, o.k) THEN Struck(lq, o.ip, <<"lop insert", 1, o.k, "-1", TRUE>>, o.n) ELSE lq
  ELSE IF o.c \notin ToSet(Kinds) THEN lq
  ELSE LET s == Reap(s0, o) IN Struck(lq, o.ip, Weigh(s, o, Do(s, o).r), 1)
RECURSIVE SumOf(_, _)
SumOf(h, i) == IF i > Len(Kinds) THEN 0 ELSE h[Kinds[i]] + SumOf(h, i + 1)
Shown(lq) == [i \in 1..Len(Kinds) |-> [c |-> Kinds[i], n |-> ToString(lq.hits[Kinds[i]]),
                                       l |-> [j \in 1..Len(lq.kept[Kinds[i]]) |-> LET e == lq.kept[Kinds[i]][j] IN e.ip \o " <" \o e.cost \o "> " \o Kinds[i] \o " " \o e.k \o " " \o e.q]]]

(* ------------------------------------------------------------------ the run *)
VARIABLES l, st, cl, lq
vars == <<l, st, cl, lq>>
Init == l = 2 /\ st = InitState(Log[1].now) /\ cl = Unlogged /\ lq = Unwatched

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ MatchFrom(raw, e + 2, r, i + 1)

O == Log[l].o
Refuse(want) == PrintT("MISMATCH " \o ToJson([l |-> l, o |-> O, want |-> want, got |-> Log[l].r])) /\ FALSE
Reply(r) == IF MatchFrom(Log[l].r, 1, r, 1) THEN TRUE ELSE Refuse(r)
Holds(b, want) == IF b THEN TRUE ELSE Refuse(want)
LogSays(w) == <<"\tcommand logging " \o w \o ".\n">>
LqSays(w) == <<"\tlong query detection " \o w \o ".\n">>
Quiet == UNCHANGED <<st, lq>>

(* (a start is itself logged only if the log is on already) *)
LogStart ==
  /\ O.c = "cmdlog start" /\ Quiet
  /\ IF cl.on THEN Reply(LogSays("already started")) /\ cl' = Noted(cl, O)
     ELSE CASE O.w = "good" -> Reply(LogSays("started")) /\ cl' = Noted1([Unlogged EXCEPT !.on = TRUE, !.what = "running"], O, 2)
            [] O.w = "bad" -> Reply(LogSays("failed to start")) /\ cl' = Unlogged
            [] O.w = "long" -> Reply(LogSays("failed to start")) /\ UNCHANGED cl
(* the line that stops the log is its last *)
LogStop ==
  /\ O.c = "cmdlog stop" /\ Quiet
  /\ IF ~cl.on THEN Reply(LogSays("already stopped")) /\ Holds(O.file = <<>> /\ O.odd = <<>>, <<>>) /\ UNCHANGED cl
     ELSE LET es == cl.es \o <<Recorded(O.ip, O.sent[1])>> IN
          /\ Reply(LogSays("stopped"))
          /\ Holds(O.odd = <<>>, "nothing else in the log's directory and every line with its time")
          /\ Holds(O.file = es, IF Len(O.file) # Len(es) THEN [lines |-> Len(es), had |-> Len(O.file)]
                                ELSE LET i == CHOOSE j \in 1..Len(es) : O.file[j] # es[j] IN [at |-> i, line |-> es[i], had |-> O.file[i]])
          /\ cl' = [cl EXCEPT !.on = FALSE, !.es = <<>>, !.what = "Not started", !.n = Len(es), !.files = 1]
LogTells ==
  /\ O.c = "cmdlog stats" /\ Quiet
  /\ LET x == Noted(cl, O)  g == O.got
         want == IF cl.on THEN <<"running", ToString(Len(cl.es) + 1), "0", g[4]>> ELSE <<cl.what, ToString(cl.n), ToString(cl.skip), ToString(cl.files)>>
     IN Holds(g = want /\ (cl.on => g[4] \in {"0", "1"}), want) /\ cl' = x
LqStart ==
  /\ O.c = "lqdetect start" /\ UNCHANGED st /\ cl' = Noted(cl, O)
  /\ IF lq.on THEN Reply(LqSays("already started")) /\ UNCHANGED lq
     ELSE Reply(LqSays("started")) /\ lq' = [Unwatched EXCEPT !.on = TRUE, !.what = "running", !.thr = IF O.n = 0 THEN 4000 ELSE O.n]
LqStop ==
  /\ O.c = "lqdetect stop" /\ UNCHANGED st /\ cl' = Noted(cl, O)
  /\ IF lq.on THEN Reply(LqSays("stopped")) /\ lq' = [lq EXCEPT !.on = FALSE, !.what = "stopped by explicit request"]
     ELSE Reply(LqSays("already stopped")) /\ UNCHANGED lq
LqTells ==
  /\ O.c = "lqdetect stats" /\ UNCHANGED <<st, lq>> /\ cl' = Noted(cl, O)
  /\ LET want == <<lq.what, ToString(SumOf(lq.hits, 1)), ToString(lq.thr)>> IN Holds(SubSeq(O.got, 1, 3) = want /\ (lq.on => O.got[4] = "0_0"), want)
LqShows == O.c = "lqdetect show" /\ UNCHANGED <<st, lq>> /\ cl' = Noted(cl, O) /\ Holds(O.got = Shown(lq), Shown(lq))
(* many clients at once while the log begins and ends: each client's numbered lines come in order and without a gap, the
   first of those begun after the start was acknowledged and the last of those answered before the stop being among them;
   a line is left out only while the buffer is full, and is counted then; a command that is being logged at the very moment
   of the stop may be counted and come too late (one for each client at the most) *)
Stormed ==
  /\ O.c = "logstorm" /\ Quiet /\ cl' = [Unlogged EXCEPT !.what = O.what, !.n = O.entered, !.skip = O.skipped, !.files = O.files]
  /\ Holds(~cl.on, "no log under way")
  /\ Holds(O.odd = <<>>, "whole lines in numbered files")
  /\ Holds(O.entered >= O.lines + O.skipped /\ (O.must = "Not started" => O.entered <= O.lines + O.skipped + O.n), "every line that was entered written or counted as skipped")
  /\ Holds(O.skipped > 0 => O.room, "nothing skipped while there is room")
  /\ Holds(\A i \in 1..Len(O.by) : LET b == O.by[i] IN
        /\ b.ordered
        /\ b.first <= b.sure1 /\ (b.sureN > 0 /\ O.skipped = 0 => b.last >= b.sureN)
        /\ (O.skipped = 0 => b.count = b.last - b.first + 1), "every client's lines in order and without a gap")
  /\ Holds(O.what = O.must /\ O.files = O.has, O.must)
Apart == {"cmdlog start", "cmdlog stop", "cmdlog stats", "lqdetect start", "lqdetect stop", "lqdetect stats", "lqdetect show", "logstorm"}
Works ==
  /\ O.c \notin Apart
  /\ LET x == Serve(st, O) IN Reply(x.r) /\ st' = x.st
  /\ cl' = Noted(cl, O) /\ lq' = Judged(lq, st, O)
Next == l <= Len(Log) /\ l' = l + 1 /\ (LogStart \/ LogStop \/ LogTells \/ LqStart \/ LqStop \/ LqTells \/ LqShows \/ Stormed \/ Works)
Spec == Init /\ [][Next]_vars
View == l
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
