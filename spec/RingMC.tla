------------------------------- MODULE RingMC -------------------------------
(***************************************************************************)
(* The laws of the hash ring on a small circle, for every placement of the *)
(* points of a few nodes, every set of nodes, and every order of joining.  *)
(***************************************************************************)
EXTENDS Ring
CONSTANTS Places, Nodes, PerNode, Moves
VARIABLES P,      \* the points of every node
          members \* what each of two members was told, in different histories

Circle == 0..(Places - 1)
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Placements == {Sorted(S) : S \in {T \in SUBSET Circle : Cardinality(T) = PerNode}}

(* the owner as the words have it: walk from the key's place until a point is met *)
Walk(S, h) ==
  LET hit(d) == {n \in S : \E i \in 1..PerNode : P[n][i] = (h + d) % Places}
      d == CHOOSE d \in Circle : hit(d) # {} /\ \A e \in Circle : e < d => hit(e) = {}
  IN CHOOSE n \in hit(d) : \A m \in hit(d) : n <= m

MInit == /\ P \in [1..Nodes -> Placements]
         /\ members = [w \in 1..2 |-> {}]
         /\ l = 0 /\ st = <<>>
Join(w) == \E n \in 1..Nodes : n \notin members[w] /\ members' = [members EXCEPT ![w] = @ \cup {n}]
Leave(w) == \E n \in members[w] : members' = [members EXCEPT ![w] = @ \ {n}]
Replace(w) == \E S \in SUBSET (1..Nodes) : members' = [members EXCEPT ![w] = S]
MNext == l < Moves /\ l' = l + 1 /\ UNCHANGED <<P, st>> /\ \E w \in 1..2 : Join(w) \/ Leave(w) \/ Replace(w)

Owns(S, h) == Owner(P, S, h)
OneOwner == \A w \in 1..2 : members[w] # {} => \A h \in Circle :
  /\ Owns(members[w], h) \in members[w]
  /\ Owns(members[w], h) = Walk(members[w], h)
Agree == members[1] = members[2] => \A h \in Circle : members[1] = {} \/ Owns(members[1], h) = Owns(members[2], h)
(* a node that comes takes keys only to itself; one that goes gives up only its own *)
FewMove == \A w \in 1..2 : \A n \in 1..Nodes : \A h \in Circle :
  /\ members[w] # {} /\ n \notin members[w] => Owns(members[w] \cup {n}, h) \in {n, Owns(members[w], h)}
  /\ n \in members[w] /\ members[w] # {n} => (Owns(members[w], h) # n => Owns(members[w] \ {n}, h) = Owns(members[w], h))
MView == <<P, members>>
=============================================================================
