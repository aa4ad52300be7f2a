-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* The state of the cache and what it means for a key to be present.       *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   now    virtual time of the server, in seconds                         *)
(*   items  key -> item, for every stored item, visible or not             *)
(*   used   key -> set of cas ids ever shown for a version of that key     *)
(*   gfl    <<>> or <<when>> : items stamped <= when are hidden once       *)
(*          now >= when (flush_all; an immediate one has when = now - 1)   *)
(*   gold   largest stamp hidden by a flush_all that has taken effect      *)
(*   pfl    prefix -> <<when, old>>  the same for flush_prefix             *)
(*   max    item type -> configured maximum collection size                *)
(*   cnt    what has been counted (Stats.tla)                              *)
(*   scans  the scans underway, bg the crowd (Scan.tla)                    *)
(*   hordes, scrub, dump  (Tend.tla)                                       *)
(* An item is a record; "ty" tells its type.                               *)
(***************************************************************************)
EXTENDS U64, FiniteSets, SequencesExt, FiniteSetsExt

Colls == {"list", "set", "map", "b+tree"}
EmptyFn == [x \in {} |-> 0]
InitState(t) == [now |-> t, items |-> EmptyFn, used |-> EmptyFn, gfl |-> <<>>, gold |-> 0, pfl |-> EmptyFn,
                 max |-> [list |-> 50000, set |-> 50000, map |-> 50000, btree |-> 50000, scrub |-> 96],
                 cnt |-> [on |-> FALSE, det |-> FALSE, n |-> EmptyFn, d |-> EmptyFn],
                 scans |-> EmptyFn, bg |-> [bg |-> 0, bp |-> 0], hordes |-> <<>>, scrub |-> <<>>, dump |-> <<>>]

R(st, lines) == [st |-> st, r |-> lines]
Fail(st, line) == [st |-> st, r |-> <<line>>]

(* ------------------------------------------------------------------ time *)
Month == 2592000
Rt(st, e) == IF e = 0 THEN 0 ELSE IF e = -1 THEN -1 ELSE IF e < 0 THEN 1 ELSE IF e > Month THEN e ELSE st.now + e
Left(st, x) == IF x = 0 \/ x = -1 THEN x ELSE IF x <= st.now THEN -2 ELSE x - st.now

(* --------------------------------------------------------------- prefixes *)
(* The prefix of a key is what stands before its first delimiter (a delimiter in first place does not count). *)
Delim == ":"
RECURSIVE FirstDelim(_, _)
FirstDelim(k, i) == IF i > Len(k) THEN 0 ELSE IF Ch(k, i) = Delim THEN i ELSE FirstDelim(k, i + 1)
KeyPrefixes(k) == LET i == FirstDelim(k, 2) IN IF i = 0 THEN {} ELSE {Prefix(k, i - 1)}
NullPrefix == "<null>"
Under(k, p) == IF p = NullPrefix THEN KeyPrefixes(k) = {} ELSE p \in KeyPrefixes(k)

(* -------------------------------------------------------------- visibility *)
HiddenBy(st, it, f) == f # <<>> /\ f[1] <= st.now /\ it.tm <= f[1]
Expired(st, it) == it.exp > 0 /\ it.exp <= st.now
PflOf(st, k) == {p \in DOMAIN st.pfl : Under(k, p)}
Flushed(st, k, it) ==
  \/ HiddenBy(st, it, st.gfl)
  \/ it.tm <= st.gold
  \/ \E p \in PflOf(st, k) : HiddenBy(st, it, <<st.pfl[p][1]>>) \/ it.tm <= st.pfl[p][2]
Live(st, k, it) == ~Expired(st, it) /\ ~Flushed(st, k, it)
Has(st, k) == k \in DOMAIN st.items /\ Live(st, k, st.items[k])
It(st, k) == st.items[k]
IsKv(st, k) == Has(st, k) /\ st.items[k].ty = "kv"
IsColl(st, k) == Has(st, k) /\ st.items[k].ty # "kv"

LiveKeys(st) == {k \in DOMAIN st.items : Live(st, k, st.items[k])}

(* ----------------------------------------------------------------- update *)
Put(st, k, it) == [st EXCEPT !.items = (k :> it) @@ @]
PrunePfl(s) == [s EXCEPT !.pfl = [p \in {q \in DOMAIN @ : q = NullPrefix \/ \E k \in DOMAIN s.items : Under(k, q)} |-> @[p]]]
Unlink(st, k) ==
  IF k \notin DOMAIN st.items THEN st
  ELSE LET s == [st EXCEPT !.items = [x \in DOMAIN @ \ {k} |-> @[x]]]
       IN IF DOMAIN st.pfl = {} THEN s ELSE PrunePfl(s)

(* a stored item carries the time of the store; one stored while a flush is hiding that time is hidden at once *)
Stamp(st, it) == [it EXCEPT !.tm = st.now]

(* ------------------------------------------------------------ collections *)
MaxOf(st, ty) == IF ty = "b+tree" THEN st.max.btree ELSE IF ty = "list" THEN st.max.list
                 ELSE IF ty = "set" THEN st.max.set ELSE st.max.map
RealMax(st, ty, n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 4000 ELSE IF n > MaxOf(st, ty) THEN MaxOf(st, ty) ELSE n
EffMax(st, it) == IF it.mc > 0 THEN it.mc ELSE MaxOf(st, it.ty)
DefOvfl(ty) == IF ty = "list" THEN "tail_trim" ELSE IF ty = "b+tree" THEN "smallest_trim" ELSE "error"
EmptyEl(ty) == IF ty \in {"list", "b+tree"} THEN <<>> ELSE IF ty = "set" THEN {} ELSE EmptyFn
Count(it) == IF it.ty \in {"list", "b+tree"} THEN Len(it.el)
             ELSE IF it.ty = "set" THEN Cardinality(it.el) ELSE Cardinality(DOMAIN it.el)

(* a: [fl, exp, mc, ov, rd] as given on the command line, "" for an omitted overflow action *)
NewColl(st, ty, a) ==
  LET base == [ty |-> ty, fl |-> a.fl, exp |-> Rt(st, a.exp), tm |-> st.now, mc |-> RealMax(st, ty, a.mc),
               ov |-> (IF a.ov = "" THEN DefOvfl(ty) ELSE a.ov), rd |-> a.rd, el |-> EmptyEl(ty)]
  IN IF ty # "b+tree" THEN base ELSE base @@ [bt |-> "", mr |-> <<>>, tr |-> FALSE]

OvflOk(ty, ov) == ov = "" \/ ov = "error"
                  \/ (ty = "list" /\ ov \in {"head_trim", "tail_trim"})
                  \/ (ty = "b+tree" /\ ov \in {"smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"})

BadLine == "CLIENT_ERROR bad command line format"
BadChunk == "CLIENT_ERROR bad data chunk"
BadValue == "CLIENT_ERROR bad value"
TooLarge == "CLIENT_ERROR too large value"

(* create an empty collection: the "create" commands *)
Create(st, o, ty) ==
  IF ~OvflOk(ty, o.cr.ov) THEN Fail(st, BadLine)
  ELSE IF Has(st, o.k) THEN Fail(st, "EXISTS")
  ELSE R(Put(st, o.k, NewColl(st, ty, o.cr)), <<"CREATED">>)

(* Common frame of the collection commands.  F(item) is [ok, it, r]: the new item and the reply. *)
OnColl(st, k, ty, F(_)) ==
  IF ~Has(st, k) THEN Fail(st, "NOT_FOUND")
  ELSE IF It(st, k).ty # ty THEN Fail(st, "TYPE_MISMATCH")
  ELSE F(It(st, k))

(* element insertion: may create the collection; a refused element does not leave a new collection behind *)
HasCreate(o) == "cr" \in DOMAIN o
InsertElem(st, o, ty, F(_)) ==
  IF HasCreate(o) /\ ~OvflOk(ty, o.cr.ov) THEN Fail(st, BadLine)
  ELSE IF Has(st, o.k) /\ It(st, o.k).ty # ty THEN Fail(st, "TYPE_MISMATCH")
  ELSE IF ~Has(st, o.k) /\ ~HasCreate(o) THEN Fail(st, "NOT_FOUND")
  ELSE LET new == ~Has(st, o.k)
           it0 == IF new THEN NewColl(st, ty, o.cr) ELSE It(st, o.k)
           x == F(it0)
       IN IF x.ok THEN R(Put(st, o.k, x.it), IF "ls" \in DOMAIN x THEN x.ls ELSE IF new THEN <<"CREATED_" \o x.r>> ELSE <<x.r>>)
          ELSE IF new THEN Fail(Unlink(st, o.k), x.r)
          ELSE R(Put(st, o.k, x.it), <<x.r>>)

(* after a deletion: drop the emptied collection when asked *)
AfterDelete(st, k, it, drop, DeletedWord(_)) ==
  IF Count(it) = 0 /\ drop THEN R(Unlink(st, k), <<DeletedWord(TRUE)>>)
  ELSE R(Put(st, k, it), <<DeletedWord(FALSE)>>)
DelWord(dropped) == IF dropped THEN "DELETED_DROPPED" ELSE "DELETED"

N(n) == ToString(n)
RECURSIVE Rev(_)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
