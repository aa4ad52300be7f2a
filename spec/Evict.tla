------------------------------- MODULE Evict -------------------------------
(***************************************************************************)
(* Running short of memory.  The specification of the commands stays what  *)
(* it is; what is added are two things the server may do on its own:       *)
(*  - with eviction, take away an item that is not sticky, as a whole, at  *)
(*    any time (seen when a command asks for it);                          *)
(*  - refuse to store for lack of memory, changing nothing: without        *)
(*    eviction when memory is full, or when the sticky items have reached  *)
(*    their limit.                                                         *)
(* Numbered items of one size (load, use, look, unload) bring the pressure *)
(* about and show the order of eviction: whatever is gone was used less    *)
(* recently than whatever is still there.                                  *)
(*   Log[1].cfg = [evict, large (numbered items beyond the small-item      *)
(*                 memory), limit, slimit, size of a numbered item: bytes]                          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Cfg == Log[1].cfg
UseInterval == 60                \* seconds before a use counts again

RECURSIVE Repeat(_, _)
Repeat(x, i) == IF i = 0 THEN "" ELSE IF i % 2 = 1 THEN x \o Repeat(x, i - 1) ELSE LET h == Repeat(x, i \div 2) IN h \o h
RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(raw, p, r, i) ==
  IF i > Len(r) THEN p = Len(raw) + 1
  ELSE LET e == p + Len(r[i]) IN
       e + 1 <= Len(raw) /\ SubSeq(raw, p, e - 1) = r[i] /\ SubSeq(raw, e, e + 1) = "\r\n" /\ LinesFrom(raw, e + 2, r, i + 1)
Matches(raw, r) == LinesFrom(raw, 1, r, 1)

VARIABLES l, st, n
(* n: [rank, used: of each numbered item, how recently it was used for certain (0: it is not there), and at the latest (uses soon after
       each other need not count), at: when that was, till: when it expires (0: never), flushed: all up to this number were,
       top: the highest rank, held: how many are there at most, lost: how many items were found evicted,
       peak: the most bytes held (those evicted unseen included)] *)
vars == <<l, st, n>>
Init == l = 2 /\ st = InitState(Log[1].now)
        /\ n = [rank |-> <<>>, used |-> <<>>, at |-> <<>>, till |-> <<>>, flushed |-> 0, top |-> 0, held |-> 0, lost |-> 0, peak |-> 0]

(* ---------------------------------------------------------- named items *)
Sticky(s, k) == It(s, k).exp = -1
Bulk(s) == Sum(LAMBDA k : Payload(k, It(s, k)) + 10 + 10 * (IF It(s, k).ty = "kv" THEN 0 ELSE Count(It(s, k))), {k \in DOMAIN s.items : Sticky(s, k)})
Concerned(s, o) == IF o.c = "flush_prefix" THEN {k \in DOMAIN s.items : o.p \in KeyPrefixes(k)} ELSE Asked(o)
Evictable(s, o) == {k \in Concerned(s, o) \cap LiveKeys(s) : ~Sticky(s, k)}
Stores == {"set", "add", "replace", "cas", "append", "prepend", "incr", "decr", "lop create", "sop create", "mop create", "bop create",
           "lop insert", "sop insert", "mop insert", "mop upsert", "mop update", "bop insert", "bop upsert", "bop update", "bop incr", "bop decr"}
MakesSticky(o) == ("exp" \in DOMAIN o /\ o.exp = -1) \/ ("cr" \in DOMAIN o /\ o.cr.exp = -1)
StickyFull(o) == "sb" \in DOMAIN o /\ o.sb >= Cfg.slimit
NamedBytes(s) == Sum(LAMBDA k : Room(k, It(s, k)), DOMAIN s.items)
(* memory is short only after three quarters of it were accounted for (items of a large size keep the room they had) *)
Held(s, more) == LET now == NamedBytes(s) + (n.held + more) * Cfg.size IN IF now > n.peak THEN now ELSE n.peak
Short(s, more) == 4 * Held(s, more) >= 3 * Cfg.limit
MayBeFull(s) == ~Cfg.evict /\ Short(s, 0)
MayRefuse(s, o) == o.c \in Stores /\ (MayBeFull(s) \/ (StickyFull(o) /\ (MakesSticky(o) \/ (o.k \in DOMAIN s.items /\ Sticky(s, o.k)))))
Refused(o, raw) == (o.c \in {"append", "prepend"} /\ raw = "NOT_STORED\r\n") \/ raw \in {"SERVER_ERROR out of memory storing object\r\n", "SERVER_ERROR out of memory\r\n"}
RECURSIVE EvictedFrom(_, _)
EvictedFrom(s, ks) == IF ks = {} THEN s ELSE LET k == CHOOSE x \in ks : TRUE IN EvictedFrom(Unlink(s, k), ks \ {k})

(* the command as specified, after the items E it asks for were evicted *)
After(E) == LET s == EvictedFrom(st, E)  x == Serve(s, Log[l].o)
            IN IF StickyFull(Log[l].o) /\ Bulk(x.st) > Bulk(s) /\ Log[l].o.c \in Stores \ {"incr", "decr", "bop incr", "bop decr"} THEN [x EXCEPT !.r = <<"refusal for sticky items">>] ELSE x
Fits(E) == Matches(Log[l].r, After(E).r)
(* a collection taken away while it was being filled: created, some stored, and from then on nothing there *)
Drained(o, raw) == \E i \in 0..(o.n - 1) : raw = "CREATED\r\n" \o Repeat("STORED\r\n", i) \o Repeat("NOT_FOUND\r\n", o.n - i)
(* (an eviction is assumed only when the reply cannot be explained without one) *)
RECURSIVE Fewest(_, _)
Fewest(E, k) == IF k > Cardinality(E) THEN {} ELSE LET h == {X \in kSubset(k, E) : Fits(X)} IN IF h # {} THEN h ELSE Fewest(E, k + 1)
NamedCmd == LET o == Log[l].o  s == Reap(st, o)  E == IF Cfg.evict THEN Evictable(st, o) ELSE {}
         IN IF Refused(o, Log[l].r) /\ MayRefuse(s, o)
            THEN st' = (IF o.c = "set" /\ o.k \in DOMAIN s.items THEN Unlink(s, o.k) ELSE s) /\ n' = n     \* (a set leaves no older value behind)
            ELSE IF o.c = "fill" /\ Cfg.evict /\ Drained(o, Log[l].r) THEN st' = s /\ n' = [n EXCEPT !.lost = @ + 1]
            ELSE \E X \in Fewest(E, 0) : st' = After(X).st 
                   /\ n' = [n EXCEPT !.lost = @ + Cardinality(X), !.flushed = IF o.c = "flush_all" THEN Len(n.rank) ELSE @]

(* -------------------------------------------------------- numbered items *)
Gone(i) == (n.till[i] # 0 /\ n.till[i] <= st.now) \/ i <= n.flushed
Still(i) == n.rank[i] # 0 /\ ~Gone(i)
Ids == 1..Len(n.rank)
(* load: o.k items of o.n wanted were stored, one after another *)
Load(o) == /\ IF o.k < o.n THEN \/ ~Cfg.evict /\ Short(st, o.k)
                                \/ Cfg.evict /\ Cfg.large /\ o.k < 20        \* (of this size there may be none to evict)
              ELSE TRUE
           /\ n' = [n EXCEPT !.rank = @ \o [i \in 1..o.k |-> n.top + i], !.used = @ \o [i \in 1..o.k |-> n.top + i],
                             !.at = @ \o [i \in 1..o.k |-> st.now], !.till = @ \o [i \in 1..o.k |-> IF o.exp = 0 THEN 0 ELSE st.now + o.exp],
                             !.top = @ + o.k, !.held = @ + o.k, !.peak = Held(st, o.k)]
           /\ st' = st
(* m after the items for which is(i) were used, the x-th of them with order(i) = x, and those for which out(i) are not there *)
Noted(m, is(_), order(_), out(_)) ==
  [m EXCEPT !.rank = [i \in Ids |-> IF out(i) THEN 0 ELSE IF is(i) /\ st.now - m.at[i] > UseInterval THEN m.top + order(i) ELSE @[i]],
            !.used = [i \in Ids |-> IF is(i) THEN m.top + order(i) ELSE @[i]],
            !.at = [i \in Ids |-> IF is(i) THEN st.now ELSE @[i]],
            !.top = @ + Len(m.rank), !.held = @ - Cardinality({i \in Ids : out(i) /\ m.rank[i] # 0})]
(* use: o.asked, the numbers asked for in this order; o.have: those found *)
Use(o) == LET have == ToSet(o.have)  gone == ToSet(o.asked) \ have
              at == [i \in have |-> CHOOSE x \in 1..Len(o.have) : o.have[x] = i]
              missed == {i \in gone : Still(i)}
          IN /\ \A i \in have : i \in Ids /\ Still(i)                 \* nothing comes back
             /\ ~Cfg.evict => missed = {}
             /\ n' = [Noted(n, LAMBDA i : i \in have, LAMBDA i : at[i], LAMBDA i : i \in gone) EXCEPT !.lost = @ + Cardinality(missed)]
             /\ st' = st
(* look: at everything, and at what the server says of its memory; what went was used less recently than all that stayed *)
Reserve == IF Cfg.limit \div 20 > 4194304 THEN Cfg.limit \div 20 ELSE 4194304      \* kept for small items, beyond the limit
(* o.has: for every number, whether it was found (1: yes, 2: with a different value) *)
Looked(o) ==
  LET gone == {i \in Ids : o.has[i] # 1 /\ Still(i)}  g == o.got
      newest == FoldSet(LAMBDA i, a : IF n.rank[i] > a THEN n.rank[i] ELSE a, 0, gone)
      s == Reap(st, o)  lost == LiveKeys(s) \ ToSet(o.named)
      after == EvictedFrom(s, lost)
      m == [Noted(n, LAMBDA i : o.has[i] = 1, LAMBDA i : i, LAMBDA i : o.has[i] # 1) EXCEPT !.lost = @ + Cardinality(gone) + Cardinality(lost)]
      stuck == Cardinality({k \in DOMAIN after.items : Sticky(after, k)})
      items == Cardinality(DOMAIN after.items) + Cardinality({i \in Ids : o.has[i] = 1})
  IN [st |-> after, n |-> m, bad |->
        (IF \A i \in Ids : o.has[i] = 0 \/ (o.has[i] = 1 /\ Still(i)) THEN {} ELSE {"numbered items that were not there, or differ"})
   \cup (IF ToSet(o.named) \subseteq LiveKeys(s) THEN {} ELSE {"named items that were not there"})
   \cup (IF ~Cfg.evict /\ (gone # {} \/ lost # {}) THEN {"lost without eviction"} ELSE {})
   \cup (IF \A k \in lost : ~Sticky(s, k) THEN {} ELSE {"a sticky item lost"})
   \cup (IF \A i \in Ids : o.has[i] = 1 => n.used[i] > newest THEN {} ELSE {"evicted before others that were used less recently"})
   \cup (IF g.limit = Cfg.limit /\ g.slimit = Cfg.slimit THEN {} ELSE {"limits"})
   \cup (IF g.bytes <= Cfg.limit + Reserve /\ g.malloced <= Cfg.limit + Reserve THEN {} ELSE {"beyond the limit"})
   \cup (IF m.lost <= g.evictions /\ (~Cfg.evict => g.evictions = 0) THEN {} ELSE {"evictions"})      \* nothing goes that is not accounted for
   \cup (IF g.evictions > 0 /\ ~Short(st, 0) THEN {"evictions without need"} ELSE {})
   \cup (IF g.items = items THEN {} ELSE {"items, not " \o ToString(items)})
   \cup (IF g.stuck = stuck THEN {} ELSE {"sticky items, not " \o ToString(stuck)})]
Look(o) == LET x == Looked(o) IN x.bad = {} /\ st' = x.st /\ n' = x.n
(* unload: deleted on request; o.had: those that were there *)
Unload(o) == LET had == ToSet(o.had)  asked == ToSet(o.asked)  missed == {i \in asked \ had : Still(i)} IN
             /\ \A i \in had : Still(i)
             /\ ~Cfg.evict => missed = {}
             /\ n' = [Noted(n, LAMBDA i : FALSE, LAMBDA i : 0, LAMBDA i : i \in asked) EXCEPT !.lost = @ + Cardinality(missed)]
             /\ st' = st
Does == LET o == Log[l].o IN
        CASE o.c = "load" -> Load(o) [] o.c = "use" -> Use(o) [] o.c = "look" -> Look(o) [] o.c = "unload" -> Unload(o)
          [] OTHER -> NamedCmd
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ IF ENABLED Does THEN Does
           ELSE PrintT("MISMATCH " \o ToJson([l |-> l, o |-> Log[l].o, want |-> IF Log[l].o.c = "look" THEN SetToSeq(Looked(Log[l].o).bad) ELSE IF Log[l].o.c \in {"load", "use", "unload"} THEN <<ToString(n.lost)>> ELSE Serve(st, Log[l].o).r, got |-> Log[l].r])) /\ FALSE
Spec == Init /\ [][Next]_vars
Accepted == PrintT("PROGRESS " \o ToString(TLCGet("stats").diameter + 1) \o " OF " \o ToString(Len(Log) + 1))
=============================================================================
