-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The hash ring of a cluster (cluster_config.c).  Every node has 160      *)
(* points on a circle of 2^32 places; a key belongs to the node with the   *)
(* first point at or after the key's own place, going around at the end;   *)
(* of nodes that share the point, to the one whose name is least.          *)
(*                                                                         *)
(* A log line is what one member was told (up, tell, storm) or asked       *)
(* (look) and what it answered; Head lists the points of every node, in    *)
(* the order of their names, and each is a sorted sequence.  All places    *)
(* are 2^31 less than they are, so that they fit TLC's numbers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Points == Log[1].points
NodeIds == 1..Len(Points)

(* the index of the first point of the sorted sequence p at or after h; Len(p)+1 if there is none *)
RECURSIVE First(_, _, _, _)
First(p, h, lo, hi) ==
  IF lo > hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF p[m] < h THEN First(p, h, m + 1, hi) ELSE First(p, h, lo, m - 1)
FirstAt(p, h) == First(p, h, 1, Len(p))

(* the owner among the nodes S (not empty) of the place h, with P the points of all nodes *)
Owner(P, S, h) ==
  LET at == [n \in S |-> FirstAt(P[n], h)]
      ahead == {n \in S : at[n] <= Len(P[n])}
      cand == IF ahead = {} THEN S ELSE ahead
      pt(n) == IF ahead = {} THEN P[n][1] ELSE P[n][at[n]]
  IN CHOOSE n \in cand : \A m \in cand : pt(n) < pt(m) \/ (pt(n) = pt(m) /\ n <= m)

(* the number of a node in the sorted list of the nodes S, from 0; -1 when it is not among them *)
IdIn(S, n) == IF n \in S THEN Cardinality({m \in S : m < n}) ELSE -1

(* what a member is: the node it calls itself (0: none of them), the nodes it was told of, and whether that succeeded *)
Fresh(self) == [self |-> self, nodes |-> {}, valid |-> FALSE]
SetOf(q) == {q[i] : i \in 1..Len(q)}

(* what it answers when asked for the place h: the owner's number, its own number; <<>> when it cannot tell *)
Answer(S, self, h) ==
  LET o == Owner(Points, S, h) IN <<IF o = self THEN 1 ELSE 0, IdIn(S, o), IdIn(S, self)>>
Looked(s, h) == IF s.valid /\ s.nodes # {} THEN Answer(s.nodes, s.self, h) ELSE <<>>

(* told the nodes q: <<return, added, removed, its own number>> *)
Told(s, q) == LET S == SetOf(q) IN <<0, Cardinality(S \ s.nodes), Cardinality(s.nodes \ S), IdIn(S, s.self)>>

VARIABLES l, st
ringvars == <<l, st>>

Refuse(want, got) == PrintT("MISMATCH " \o ToJson([l |-> l, o |-> Log[l], want |-> want, got |-> got])) /\ FALSE

Up(o) == st' = [st EXCEPT ![o.who] = Fresh(o.self)]
Tell(o) ==
  LET s == st[o.who]
      want == Told(s, o.list)
  IN IF o.got = want THEN st' = [st EXCEPT ![o.who] = [s EXCEPT !.nodes = SetOf(o.list), !.valid = TRUE]]
     (* for lack of memory it may refuse, and then owns up to not knowing until it is told again *)
     ELSE IF o.starved /\ o.got[1] = -1 THEN st' = [st EXCEPT ![o.who] = [s EXCEPT !.valid = FALSE]]
     ELSE Refuse(want, o.got)
Look(o) ==
  LET s == st[o.who]
      want == [i \in 1..Len(o.hs) |-> Looked(s, o.hs[i])]
  IN IF o.got = want THEN st' = st ELSE Refuse(want, o.got)
(* while it is told the lists a and b in turns, every lookup answers as after a or as after b *)
Storm(o) ==
  LET s == st[o.who]
      A == SetOf(o.a)  B == SetOf(o.b)
      may(h) == {LET x == Answer(S, s.self, h) IN <<x[2], x[3]>> : S \in {A, B}}
      bad == {i \in 1..Len(o.hs) : o.none[i] # 0 \/ ~ (SetOf(o.got[i]) \subseteq may(o.hs[i]))}
  IN IF bad = {} THEN st' = [st EXCEPT ![o.who] = [s EXCEPT !.nodes = A, !.valid = TRUE]]
     ELSE LET i == CHOOSE i \in bad : TRUE IN Refuse(may(o.hs[i]), <<o.hs[i], o.none[i], o.got[i]>>)

RInit == l = 2 /\ st = [w \in 0..7 |-> Fresh(0)]
RNext == /\ l <= Len(Log)
         /\ LET o == Log[l] IN
            CASE o.c = "up" -> Up(o)
              [] o.c = "tell" -> Tell(o)
              [] o.c = "look" -> Look(o)
              [] o.c = "storm" -> Storm(o)
         /\ l' = l + 1
View == l
(* a member that knows its nodes gives every key exactly one owner, and it is one of them *)
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
