-------------------------------- MODULE Tend --------------------------------
(***************************************************************************)
(* Looking after the contents as a whole: the scrubber removes the dead    *)
(* items, exactly those; a dump writes down the live ones, exactly those;  *)
(* both while other commands go on.                                        *)
(*   st.hordes  groups of n small items g:NNNNNN with one expiry time,     *)
(*              [g, n, till, dead: all flushed], counted but not told      *)
(*              apart                                                      *)
(*   st.scrub   <<>>, or <<[old: the items that were dead when the         *)
(*              scrubber set out, gone: the groups that were, keep: the    *)
(*              groups that were not]>>                                    *)
(*   st.dump    <<>>, or <<[p: the prefix asked for, must, may: what was   *)
(*              alive all the time, at some time, since it began, at: when *)
(*              that was, hmust, hmay: the groups, stop: told to stop,     *)
(*              told: "stats dump" still speaks of it]>>                   *)
(***************************************************************************)
EXTENDS Scan

HordeDead(st, h) == h.dead \/ (h.till > 0 /\ h.till <= st.now)
InHordes(st, Which(_)) == FoldSeq(LAMBDA h, a : a + (IF Which(h) THEN h.n ELSE 0), 0, st.hordes)
LiveHordes(st) == {h.g : h \in {x \in ToSet(st.hordes) : ~HordeDead(st, x)}}
LiveCount(st) == Cardinality(LiveKeys(st)) + InHordes(st, LAMBDA h : ~HordeDead(st, h))
MostCount(st) == Cardinality(DOMAIN st.items) + InHordes(st, LAMBDA h : TRUE)
HordeOf(st, g) == CHOOSE h \in ToSet(st.hordes) : h.g = g
Horde(st, o) == R([st EXCEPT !.hordes = Append(@, [g |-> o.g, n |-> o.n, till |-> Rt(st, o.exp), dead |-> FALSE])], <<>>)
HordeFlush(st, o) ==
  IF o.g \notin {h.g : h \in ToSet(st.hordes)} THEN R(st, IF o.got = "NOT_FOUND" THEN <<>> ELSE <<"NOT_FOUND">>) ELSE
  LET i == CHOOSE j \in 1..Len(st.hordes) : st.hordes[j].g = o.g
  \* (with nothing alive of it the server may have forgotten the prefix)
  IN R([st EXCEPT !.hordes[i].dead = TRUE], IF o.got = "OK" \/ (HordeDead(st, st.hordes[i]) /\ o.got = "NOT_FOUND") THEN <<>> ELSE <<"OK">>)

(* -------------------------------------------------------------- the scrubber *)
(* the table without the dead items and groups given *)
Cleaned(st, old, gone) ==
  PrunePfl([st EXCEPT !.items = [k \in {x \in DOMAIN @ : <<x, @[x]>> \notin old} |-> @[k]],
                      !.hordes = SelectSeq(@, LAMBDA h : h.g \notin gone), !.scrub = <<>>])
DeadPairs(st) == {<<k, It(st, k)>> : k \in DOMAIN st.items \ LiveKeys(st)}
DeadHordes(st) == {h.g : h \in {x \in ToSet(st.hordes) : HordeDead(st, x)}}
Outside(what, n, lo, hi) == IF n < lo \/ n > hi THEN {what \o " not in " \o N(lo) \o ".." \o N(hi)} ELSE {}
(* nothing else goes on meanwhile: o.got = [reply, before, after: number of items, visited, cleaned, mode, acct] *)
ScrubAll(st, o) ==
  LET g == o.got  live == LiveCount(st)  s == Cleaned(st, DeadPairs(st), DeadHordes(st)) IN
  R(s, SetToSeq(
    Outside("items before", g.before, live, MostCount(st)) \cup Wrong("items after", g.after, live)
    \cup Wrong("visited", g.visited, g.before) \cup Wrong("cleaned", g.cleaned, g.before - live)
    \cup (IF g.reply = "OK" /\ g.mode = "scrub" THEN {} ELSE {"OK"})
    \cup (IF g.acct # <<>> THEN AcctWrong(s, g.acct[1]) ELSE {})))
(* it sets out; what it must remove is what is dead now.  o.got = [reply, was: its status just before,
   on: it was going on and has not begun anew] *)
ScrubStart(st, o) ==
  LET g == o.got IN
  IF g.reply = "OK" /\ ~(g.was = "running" /\ g.on) THEN R([st EXCEPT !.scrub = <<[old |-> DeadPairs(st), gone |-> DeadHordes(st), keep |-> LiveHordes(st)]>>], <<>>)
  ELSE R(st, IF g.reply = "BUSY" /\ g.was = "running" /\ st.scrub # <<>> THEN <<>> ELSE <<IF g.was = "running" THEN "BUSY" ELSE "OK">>)
(* it has stopped.  o.got = [items, visited, cleaned] *)
ScrubEnd(st, o) ==
  IF st.scrub = <<>> THEN R(st, <<>>)
  ELSE LET g == o.got  s == Cleaned(st, st.scrub[1].old, st.scrub[1].gone) IN
       R(s, SetToSeq(Outside("items", g.items, LiveCount(s), MostCount(s))
                     \cup Outside("visited", g.visited, InHordes(s, LAMBDA h : h.g \in st.scrub[1].keep /\ ~HordeDead(s, h)), 2000000000)))
ScrubCount(st, o) ==
  IF o.n = 0 THEN R(st, <<"scrub_count " \o N(st.max.scrub), "END">>)
  ELSE IF o.n < 16 \/ o.n > 320 THEN Fail(st, BadValue)
  ELSE R([st EXCEPT !.max.scrub = o.n], <<"END">>)

(* -------------------------------------------------------------------- dumping *)
AllOfIt == "<all>"
Entry(st, k) == <<k, Letter[It(st, k).ty], It(st, k).exp>>
Dumped(st, p) == {Entry(st, k) : k \in {x \in LiveKeys(st) : InSight(x) /\ (p = AllOfIt \/ Under(x, p))}}
DumpedHordes(st, p) == {g \in LiveHordes(st) : p \in {AllOfIt, g}}
DumpStart(st, o) ==
  IF Len(o.p) > 250 THEN R(st, <<"CLIENT_ERROR too long prefix name">>)
  ELSE IF st.dump # <<>> /\ o.was = "running" /\ o.busy THEN R(st, <<"SERVER_ERROR failed. refer to the reason in server log.">>)
  ELSE IF o.bad THEN R([st EXCEPT !.dump = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.told = FALSE]>>], <<"SERVER_ERROR failed. refer to the reason in server log.">>)
  ELSE LET d == Dumped(st, o.p)  h == DumpedHordes(st, o.p)
       IN R([st EXCEPT !.dump = <<[p |-> o.p, must |-> d, may |-> d, at |-> st.now, hmust |-> h, hmay |-> h, stop |-> FALSE, told |-> TRUE]>>], <<"OK">>)
DumpStop(st, o) == R([st EXCEPT !.dump = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.stop = TRUE]>>], <<"OK">>)
(* it has stopped; o.got = [list: the items listed (k, t, e), hs: group -> [n: how many of it, different ones, es: the expiry
   times given], more: how many lines in all, odd: lines that make no sense, sum: what the last line says, stats: what
   "stats dump" says] *)
DumpEnd(st, o) ==
  IF st.dump = <<>> THEN R(st, <<>>)
  ELSE LET g == o.got  d == st.dump[1]
           got == {<<g.list[i].k, g.list[i].t, g.list[i].e>> : i \in 1..Len(g.list)}
           show(e) == <<e[1], e[2], ToString(Left(st, e[3]))>>
           could == {show(e) : e \in d.may}  shall == {show(e) : e \in d.must}
           timed == d.at = st.now                 \* (the times are told from where the dump was then)
           plain(S) == IF timed THEN S ELSE {<<e[1], e[2]>> : e \in S}
           hs == DOMAIN g.hs
           whole == g.sum # <<>>                  \* it ran to its end
           count == Len(g.list) + FoldSet(LAMBDA h, a : a + g.hs[h].n, 0, hs)
       IN R([st EXCEPT !.dump = <<>>], SetToSeq(
            ToSet(g.odd)
            \cup {e[1] \o " is listed" : e \in plain(got) \ plain(could)}
            \cup {h \o " is listed" : h \in {x \in hs : x \notin d.hmay \/ g.hs[x].n > HordeOf(st, x).n}}
            \cup (IF ~timed THEN {} ELSE {h \o " expiry" : h \in {x \in hs \cap d.hmay : ToSet(g.hs[x].es) # {ToString(Left(st, HordeOf(st, x).till))}}})
            \cup (IF ~whole THEN (IF d.stop THEN {} ELSE {"no summary"})
                  ELSE {e[1] \o " is not listed" : e \in plain(shall) \ plain(got)}
                       \cup {h \o " is not listed" : h \in {x \in d.hmust : x \notin hs \/ g.hs[x].n # HordeOf(st, x).n}}
                       \cup (IF g.sum = <<d.p, N(g.more)>> THEN {} ELSE {"summary " \o d.p}))
            \cup (IF ~d.told \/ g.stats = <<(IF whole THEN "true" ELSE "false"), d.p>> THEN {} ELSE {"stats " \o d.p})
            \cup Wrong("lines", g.more, count)))

(* every other command changes what is alive meanwhile *)
Attend(x, o) ==
  LET s == IF o.c = "flush_all" /\ x.r = <<"OK">> THEN [x.st EXCEPT !.hordes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.dead = TRUE]]] ELSE x.st
  IN [x EXCEPT !.st = IF s.dump = <<>> THEN s
      ELSE LET p == s.dump[1].p IN
           [s EXCEPT !.dump = <<[@[1] EXCEPT !.must = @ \cap Dumped(s, p), !.may = @ \cup Dumped(s, p),
                                             !.hmust = @ \cap DumpedHordes(s, p), !.hmay = @ \cup DumpedHordes(s, p)]>>]]

TendCommands == {"horde", "hordeflush", "scrub", "scrub start", "scrub end", "scrub_count", "dump start", "dump stop", "dump end"}
Tending(st, o) ==
  CASE o.c = "horde" -> Horde(st, o)
    [] o.c = "hordeflush" -> HordeFlush(st, o)
    [] o.c = "scrub" -> ScrubAll(st, o)
    [] o.c = "scrub start" -> ScrubStart(st, o)
    [] o.c = "scrub end" -> ScrubEnd(st, o)
    [] o.c = "scrub_count" -> ScrubCount(st, o)
    [] o.c = "dump start" -> DumpStart(st, o)
    [] o.c = "dump stop" -> DumpStop(st, o)
    [] o.c = "dump end" -> DumpEnd(st, o)
=============================================================================
