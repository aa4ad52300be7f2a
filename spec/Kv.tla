--------------------------------- MODULE Kv ---------------------------------
(* Key-value commands, deletion, flushing and expiry.                       *)
EXTENDS Base

KvItem(st, fl, exp, v, cas) == [ty |-> "kv", fl |-> fl, exp |-> exp, tm |-> st.now, v |-> v, cas |-> cas]
Store(st, o) == R(Put(st, o.k, KvItem(st, o.fl, Rt(st, o.exp), o.v, "")), <<"STORED">>)
TypeMismatch(st) == Fail(st, "TYPE_MISMATCH")

Set(st, o) == IF IsColl(st, o.k) THEN TypeMismatch(st) ELSE Store(st, o)
Add(st, o) == IF IsColl(st, o.k) THEN TypeMismatch(st) ELSE IF Has(st, o.k) THEN Fail(st, "NOT_STORED") ELSE Store(st, o)
Replace(st, o) == IF IsColl(st, o.k) THEN TypeMismatch(st) ELSE IF ~Has(st, o.k) THEN Fail(st, "NOT_STORED") ELSE Store(st, o)
(* append and prepend keep flags and expiration time *)
Attach(st, o, V(_)) ==
  IF IsColl(st, o.k) THEN TypeMismatch(st) ELSE IF ~Has(st, o.k) THEN Fail(st, "NOT_STORED")
  ELSE LET it == It(st, o.k) IN R(Put(st, o.k, KvItem(st, it.fl, it.exp, V(it.v), "")), <<"STORED">>)
Append_(st, o) == Attach(st, o, LAMBDA v : v \o o.v)
Prepend(st, o) == Attach(st, o, LAMBDA v : o.v \o v)
(* A cas id never observed on the current version cannot match (drivers only send observed or impossible ids). *)
Cas(st, o) ==
  IF IsColl(st, o.k) THEN TypeMismatch(st) ELSE IF ~Has(st, o.k) THEN Fail(st, "NOT_FOUND")
  ELSE IF It(st, o.k).cas # "" /\ It(st, o.k).cas = o.id THEN Store(st, o)
  ELSE Fail(st, "EXISTS")
(* a value too large for the cache: nothing is stored, and a plain set removes the old item *)
Big(st, o) == R(IF o.sc = "set" THEN Unlink(st, o.k) ELSE st, <<"CLIENT_ERROR object too large for cache">>)

(* -------------------------------------------------------------------- reads *)
Used(st, k) == IF k \in DOMAIN st.used THEN st.used[k] ELSE {}
Val(k, it, cas) == <<"VALUE " \o k \o " " \o it.fl \o " " \o N(Len(it.v)) \o (IF cas = "" THEN "" ELSE " " \o cas), it.v>>
RECURSIVE GetLines(_, _, _)
GetLines(st, ks, i) ==
  IF i > Len(ks) THEN <<"END">>
  ELSE (IF IsKv(st, ks[i]) THEN Val(ks[i], It(st, ks[i]), "") ELSE <<>>) \o GetLines(st, ks, i + 1)
Get(st, o) == R(st, GetLines(st, o.ks, 1))

(* gets: the ids shown are chosen by the server.  o.cas carries the ids seen on the wire; an id is acceptable for a
   version whose id is still unknown only if it was never shown for an earlier version of the key. *)
RECURSIVE GetsWalk(_, _, _, _, _)
GetsWalk(st, ks, ids, i, acc) ==
  IF i > Len(ks) THEN R(st, acc \o <<"END">>)
  ELSE IF ~IsKv(st, ks[i]) THEN GetsWalk(st, ks, ids, i + 1, acc)
  ELSE LET k == ks[i]  it == It(st, k)
           id == IF ids # <<>> THEN Head(ids) ELSE "?"
           rest == IF ids # <<>> THEN Tail(ids) ELSE <<>>
       IN IF it.cas # "" THEN GetsWalk(st, ks, rest, i + 1, acc \o Val(k, it, it.cas))
          ELSE IF id \in Used(st, k) \/ id = "0" THEN R(st, acc \o <<"a cas id never shown for another version of " \o k>>)
          ELSE LET s2 == [st EXCEPT !.items = (k :> [it EXCEPT !.cas = id]) @@ @,
                                    !.used = (k :> (Used(st, k) \cup {id})) @@ @]
               IN GetsWalk(s2, ks, rest, i + 1, acc \o Val(k, it, id))
Gets(st, o) == GetsWalk(st, o.ks, o.cas, 1, <<>>)

(* --------------------------------------------------------------- arithmetic *)
Arith(st, o, incr) ==
  LET d == ParseU64(o.d) IN
  IF d = Bad THEN Fail(st, "CLIENT_ERROR invalid numeric delta argument")
  ELSE IF "init" \in DOMAIN o /\ ParseU64(o.init) = Bad THEN Fail(st, BadLine)
  ELSE IF IsColl(st, o.k) THEN TypeMismatch(st)
  ELSE IF Has(st, o.k) THEN
    LET it == It(st, o.k)  u == ParseU64(it.v) IN
    IF u = Bad THEN Fail(st, "CLIENT_ERROR cannot increment or decrement non-numeric value")
    ELSE LET s == UStr(IF incr THEN AddMod(u, d) ELSE SubFloor(u, d))
         IN R(Put(st, o.k, KvItem(st, it.fl, it.exp, s, "")), <<s>>)
  ELSE IF "init" \in DOMAIN o THEN
    LET s == UStr(ParseU64(o.init)) IN R(Put(st, o.k, KvItem(st, o.fl, Rt(st, o.exp), s, "")), <<s>>)
  ELSE Fail(st, "NOT_FOUND")

(* ------------------------------------------------------- deletion, touching *)
Delete(st, o) == IF Has(st, o.k) THEN R(Unlink(st, o.k), <<"DELETED">>) ELSE Fail(st, "NOT_FOUND")
(* an item cannot be made sticky, nor a sticky item ordinary, by changing its expiration time *)
StickyToggle(it, x) == (it.exp = -1) # (x = -1)
Touch(st, o) ==
  IF ~Has(st, o.k) THEN Fail(st, "NOT_FOUND")
  ELSE LET x == Rt(st, o.exp) IN
    IF StickyToggle(It(st, o.k), x) THEN Fail(st, BadValue)
    ELSE R(Put(st, o.k, [It(st, o.k) EXCEPT !.exp = x]), <<"TOUCHED">>)

(* ------------------------------------------------------------------ flushing *)
(* o.d: seconds to wait, 0 for now.  Items stored in the same second before an immediate flush are removed. *)
When(st, o) == IF o.d = 0 THEN st.now - 1 ELSE (Rt(st, o.d)) - 1
Effective(st, f) == f # <<>> /\ f[1] <= st.now
Max2(a, b) == IF a > b THEN a ELSE b
FlushAll(st, o) ==
  IF o.d < 0 THEN Fail(st, BadLine)
  ELSE LET w == When(st, o)
           old == IF Effective(st, st.gfl) THEN Max2(st.gold, st.gfl[1]) ELSE st.gold
           keep == {k \in DOMAIN st.items : st.items[k].tm < w}
       IN R(PrunePfl([st EXCEPT !.items = [k \in keep |-> @[k]], !.gfl = <<w>>, !.gold = old]), <<"OK">>)
FlushPrefix(st, o) ==
  LET mine == {k \in DOMAIN st.items : Under(k, o.p)}
      live == {k \in mine : Live(st, k, st.items[k])}
      w == When(st, o)
      cur == IF o.p \in DOMAIN st.pfl THEN st.pfl[o.p] ELSE <<-1, -1>>
      old == IF cur[1] <= st.now THEN Max2(cur[1], cur[2]) ELSE cur[2]
      keep == {k \in DOMAIN st.items : k \notin mine \/ st.items[k].tm < w}
  IN IF o.d < 0 THEN Fail(st, BadLine)
     \* a prefix left with only dead items is reported by what the server has collected so far
     ELSE IF live = {} /\ (mine = {} \/ o.gone) /\ o.p # NullPrefix
          THEN Fail([st EXCEPT !.items = [k \in DOMAIN @ \ mine |-> @[k]],
                               !.pfl = [p \in DOMAIN @ \ {o.p} |-> @[p]]], "NOT_FOUND")
     ELSE R(PrunePfl([st EXCEPT !.items = [k \in keep |-> @[k]], !.pfl = (o.p :> <<w, old>>) @@ @]), <<"OK">>)
=============================================================================
