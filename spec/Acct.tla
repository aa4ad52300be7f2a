-------------------------------- MODULE Acct --------------------------------
(***************************************************************************)
(* What the server says about its contents: the number of items and their  *)
(* bytes, in total, by type and by prefix.  (All keys are asked for right  *)
(* before, o.ks, so that items found dead are gone.)  Bytes are known up   *)
(* to the server's own overhead.                                           *)
(*   o.got = [items, bytes, sticky, stickybytes, prefixes: number of       *)
(*            prefixes, p: prefix -> field -> value, agree: whether two    *)
(*            ways to ask agree]                                           *)
(***************************************************************************)
EXTENDS Stats

TypeLetter == [kv |-> "k", list |-> "l", set |-> "s", map |-> "m"] @@ ("b+tree" :> "b")
Letters == {"k", "l", "s", "m", "b"}
AllPrefixes(st) == UNION {IF KeyPrefixes(k) = {} THEN {NullPrefix} ELSE KeyPrefixes(k) : k \in DOMAIN st.items}
Sum(f(_), S) == FoldSet(LAMBDA x, a : a + f(x), 0, S)

(* the bytes an item stands for, and what the server may take for it at most *)
Payload(k, it) ==
  Len(k) + (CASE it.ty = "kv" -> Len(it.v)
              [] it.ty = "list" -> FoldSeq(LAMBDA x, a : a + Len(x), 0, it.el)
              [] it.ty = "set" -> Sum(LAMBDA x : Len(x), it.el)
              [] it.ty = "map" -> Sum(LAMBDA f : Len(f) + Len(it.el[f]), DOMAIN it.el)
              [] OTHER -> FoldSeq(LAMBDA x, a : a + Len(x.v) + Len(x.f), 0, it.el))
Room(k, it) == 2 * Payload(k, it) + 400 + (IF it.ty = "kv" THEN 0 ELSE 1000 + 500 * Count(it))

(* the complaints *)
Wrong(what, n, want) == IF n # want THEN {what \o " " \o N(want)} ELSE {}
BytesWrong(what, st, n, items) ==
  LET lo == Sum(LAMBDA k : Payload(k, It(st, k)), items)  hi == Sum(LAMBDA k : Room(k, It(st, k)), items)
  IN IF n < lo \/ n > hi \/ (n = 0) # (items = {}) THEN {what \o " " \o N(n) \o " not in " \o N(lo) \o ".." \o N(hi)} ELSE {}
PrefixWrong(st, p, g) ==
  LET mine == {k \in DOMAIN st.items : Under(k, p)}
      of(l) == {k \in mine : TypeLetter[It(st, k).ty] = l}
  IN UNION {Wrong(p \o " " \o l \o "itm", g[l \o "itm"], Cardinality(of(l))) \cup BytesWrong(p \o " " \o l \o "tsz", st, g[l \o "tsz"], of(l)) : l \in Letters}
     \cup Wrong(p \o " itm", g.itm, Cardinality(mine))
     \cup Wrong(p \o " tsz, the sum over the types", g.tsz, Sum(LAMBDA l : g[l \o "tsz"], Letters))
AcctWrong(st, g) ==
  LET have == DOMAIN g.p  all == AllPrefixes(st)  keys == DOMAIN st.items
      stuck == {k \in keys : It(st, k).exp = -1}
  IN {"prefix " \o p \o " missing" : p \in all \ have} \cup {"prefix " \o p \o " without items" : p \in have \ all}
     \cup UNION {PrefixWrong(st, p, g.p[p]) : p \in have \cap all}
     \cup Wrong("curr_items", g.items, Cardinality(keys))
     \cup Wrong("bytes, the sum over the prefixes", g.bytes, Sum(LAMBDA p : g.p[p].tsz, have))
     \cup Wrong("curr_prefixes", g.prefixes, Cardinality(all))
     \cup (IF g.agree THEN {} ELSE {"stats prefixes and stats prefixlist item differ"})
     \cup Wrong("sticky_items", g.sticky, Cardinality(stuck))
     \cup BytesWrong("sticky_bytes", st, g.stickybytes, stuck)
AcctReading(st, o) == R(st, SetToSeq(AcctWrong(st, o.got)))
=============================================================================
