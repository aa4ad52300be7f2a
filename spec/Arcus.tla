------------------------------- MODULE Arcus -------------------------------
(* One command against the cache: Exec(st, o) = [st: new state, r: reply lines]. *)
EXTENDS Attr

Config(st, o) == \* config max_<type>_size: it can only grow, up to a million
  LET n == IF o.n < 0 \/ o.n > 1000000 THEN 1000000 ELSE o.n IN
  IF n <= st.max[o.t] THEN Fail(st, BadValue) ELSE
  R([st EXCEPT !.max = [t \in DOMAIN @ |-> IF t = o.t THEN n ELSE @[t]]], <<"END">>)

(* a new collection and n insertions into it, in whatever order: elements o.s, o.s + o.d, ... *)
FillNum(o, i) == o.s + (i - 1) * o.d
FillBk(o, i) == LET x == FillNum(o, i) IN IF o.fam = "u" THEN ParseDigits(N(x)) ELSE <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
FillEl(o) ==
  CASE o.ty = "list" -> [i \in 1..o.n |-> "v" \o N(FillNum(o, i))]
    [] o.ty = "set" -> {"m" \o N(FillNum(o, i)) : i \in 1..o.n}
    [] o.ty = "map" -> [f \in {"f" \o N(FillNum(o, i)) : i \in 1..o.n} |-> "v" \o SubSeq(f, 2, Len(f))]
    [] OTHER -> [i \in 1..o.n |-> LET b == FillBk(o, i) IN
                  [b |-> b, s |-> BkStr(o.fam, b), f |-> IF o.fl = 0 THEN <<>> ELSE <<FillNum(o, i) % o.fl>>, v |-> "v" \o N(FillNum(o, i))]]
FillColl(st, o) ==
  IF Has(st, o.k) THEN Fail(st, "EXISTS")
  ELSE LET it == NewColl(st, o.ty, o.cr)
           full == [it EXCEPT !.el = FillEl(o)]
           s == Put(st, o.k, IF o.ty = "b+tree" THEN [full EXCEPT !.bt = o.fam] ELSE full)
       IN IF Has(s, o.k) THEN R(s, <<"FILLED">>)
          ELSE R(Unlink(s, o.k), <<"CREATED">> \o [i \in 1..o.n |-> "NOT_FOUND"])         \* (a flush hides it at once)

Do(st, o) ==
  CASE o.c = "set" -> Set(st, o)
    [] o.c = "add" -> Add(st, o)
    [] o.c = "replace" -> Replace(st, o)
    [] o.c = "append" -> Append_(st, o)
    [] o.c = "prepend" -> Prepend(st, o)
    [] o.c = "cas" -> Cas(st, o)
    [] o.c = "big" -> Big(st, o)
    [] o.c \in {"get", "mget"} -> Get(st, o)
    [] o.c \in {"gets", "mgets"} -> Gets(st, o)
    [] o.c = "incr" -> Arith(st, o, TRUE)
    [] o.c = "decr" -> Arith(st, o, FALSE)
    [] o.c = "delete" -> Delete(st, o)
    [] o.c = "touch" -> Touch(st, o)
    [] o.c = "flush_all" -> FlushAll(st, o)
    [] o.c = "flush_prefix" -> FlushPrefix(st, o)
    [] o.c = "lop create" -> Create(st, o, "list")
    [] o.c = "sop create" -> Create(st, o, "set")
    [] o.c = "mop create" -> Create(st, o, "map")
    [] o.c = "bop create" -> Create(st, o, "b+tree")
    [] o.c = "lop insert" -> LopInsert(st, o)
    [] o.c = "lop delete" -> LopDelete(st, o)
    [] o.c = "lop get" -> LopGet(st, o)
    [] o.c = "sop insert" -> SopInsert(st, o)
    [] o.c = "sop delete" -> SopDelete(st, o)
    [] o.c = "sop exist" -> SopExist(st, o)
    [] o.c = "sop get" -> SopGet(st, o)
    [] o.c = "mop insert" -> MopInsert(st, o, FALSE)
    [] o.c = "mop upsert" -> MopInsert(st, o, TRUE)
    [] o.c = "mop update" -> MopUpdate(st, o)
    [] o.c = "mop delete" -> MopDelete(st, o)
    [] o.c = "mop get" -> MopGet(st, o)
    [] o.c = "bop insert" -> BopInsert(st, o, FALSE)
    [] o.c = "bop upsert" -> BopInsert(st, o, TRUE)
    [] o.c = "bop update" -> BopUpdate(st, o)
    [] o.c = "bop delete" -> BopDelete(st, o)
    [] o.c = "bop get" -> BopGet(st, o)
    [] o.c = "bop count" -> BopCount(st, o)
    [] o.c = "bop incr" -> BopArith(st, o, TRUE)
    [] o.c = "bop decr" -> BopArith(st, o, FALSE)
    [] o.c = "bop position" -> BopPosition(st, o)
    [] o.c = "bop pwg" -> BopPwg(st, o)
    [] o.c = "bop gbp" -> BopGbp(st, o)
    [] o.c = "bop mget" -> BopMget(st, o)
    [] o.c = "bop smget" -> BopSmget(st, o)
    [] o.c = "getattr" -> Getattr(st, o)
    [] o.c = "setattr" -> Setattr(st, o)
    [] o.c = "fill" -> FillColl(st, o)
    [] o.c = "config" -> Config(st, o)
    [] o.c = "tick" -> R([st EXCEPT !.now = @ + o.n], <<>>)
    [] o.c = "clock" -> R([st EXCEPT !.now = o.now], <<>>)
    [] OTHER -> Assert(FALSE, <<"unknown command", o>>)

(* An item found dead is removed.  It makes no difference to any reply, except that the prefix of the last item goes
   with it, and a flush still pending for that prefix. *)
Asked(o) == IF "k" \in DOMAIN o THEN {o.k} ELSE IF "ks" \in DOMAIN o THEN ToSet(o.ks) ELSE {}
Reap(st, o) == LET dead == {k \in Asked(o) \cap DOMAIN st.items : ~Live(st, k, st.items[k])}
               IN IF dead = {} THEN st ELSE PrunePfl([st EXCEPT !.items = [x \in DOMAIN @ \ dead |-> @[x]]])

(* a command sent with noreply has its effect and no output *)
Exec(st, o) == LET x == Do(Reap(st, o), o) IN IF "nr" \in DOMAIN o THEN [x EXCEPT !.r = <<>>] ELSE x
=============================================================================
