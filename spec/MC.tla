--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification over small key and value    *)
(* domains.  Every step is checked against the laws below and printed with *)
(* the answer the server must give; lib/mc.py replays every printed step   *)
(* on the real server.  A key carries @@@@, which the replay replaces by a *)
(* different text for every replayed path, so that paths do not interfere. *)
(***************************************************************************)
EXTENDS Wire, Json, TLCExt
CONSTANTS Model, Depth
VARIABLES st, path
vars == <<st, path>>

A == "a@@@@"
B == "b@@@@"
Pa == "p@@@@:x"
Pb == "p@@@@:y"
One(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> <<q[i]>>]
Cr(mc, ov) == [fl |-> "3", exp |-> 0, mc |-> mc, ov |-> ov, rd |-> TRUE]
Get1(k) == [c |-> "get", ks |-> <<k>>]

(* ------------------------------------------------------------- command sets *)
KvOps(ks) ==
  One({[c |-> c, k |-> k, fl |-> f, exp |-> 0, v |-> v] : c \in {"set", "add", "replace"}, k \in ks, v \in {"", "9"}, f \in {"0", "7"}})
  \o One({[c |-> c, k |-> k, fl |-> "1", exp |-> 0, v |-> "0"] : c \in {"append", "prepend"}, k \in ks})
  \o One({[c |-> "delete", k |-> k] : k \in ks})
  \o One({[c |-> "get", ks |-> q] : q \in {<<k>> : k \in ks} \cup {<<A, B, A>>}})
  \o One({[c |-> c, k |-> k, d |-> "1"] : c \in {"incr", "decr"}, k \in ks})
  \o One({[c |-> "incr", k |-> k, d |-> "1", init |-> "09", fl |-> "5", exp |-> 0] : k \in ks})
  \o One({[c |-> "big", sc |-> c, k |-> A, len |-> 1100000] : c \in {"set"}})
  \o One({[c |-> "set", k |-> A, fl |-> "2", exp |-> 0, v |-> "n", nr |-> 1], [c |-> "add", k |-> A, fl |-> "2", exp |-> 0, v |-> "n", nr |-> 1]})
CasOps ==
  One({[c |-> "gets", ks |-> <<A>>, cas |-> <<>>]})
  \o One({[c |-> "cas", k |-> A, fl |-> "4", exp |-> 0, v |-> v, id |-> i] : v \in {"c"}, i \in {"#1", "#2", "#3"}})
  \o One({[c |-> c, k |-> A, fl |-> "0", exp |-> 0, v |-> "s"] : c \in {"set", "append"}})
  \o One({[c |-> "set", k |-> A, fl |-> "0", exp |-> 0, v |-> "7"], [c |-> "set", k |-> A, fl |-> "0", exp |-> 0, v |-> "7", nr |-> 1]})
  \o One({[c |-> "incr", k |-> A, d |-> "1"]}) \o One({[c |-> "delete", k |-> A]}) \o One({[c |-> "touch", k |-> A, exp |-> 0]})
  \o One({[c |-> "lop create", k |-> A, cr |-> Cr(0, "")]})
ArithOps ==
  One({[c |-> "set", k |-> A, fl |-> "6", exp |-> 0, v |-> v] : v \in {"0", "9", "10", "007", "18446744073709551615", "18446744073709551616", "-1", "", "1a", "99999999999999999999999"}})
  \o One({[c |-> c, k |-> A, d |-> d] : c \in {"incr", "decr"}, d \in {"0", "1", "95", "18446744073709551615", "18446744073709551616", "x", "-1"}})
  \o One({[c |-> c, k |-> A, d |-> "3", init |-> i, fl |-> "5", exp |-> 0] : c \in {"incr", "decr"}, i \in {"0", "7", "18446744073709551615"}})
  \o One({[c |-> c, k |-> A, d |-> "2", nr |-> 1] : c \in {"incr", "decr"}})
  \o One({[c |-> "bop incr", k |-> B, b |-> "1", d |-> d, ef |-> "0x01", init |-> i] : d \in {"1", "18446744073709551615"}, i \in {"5"}})
  \o One({[c |-> "bop decr", k |-> B, b |-> "1", d |-> d, ef |-> ""] : d \in {"1", "18446744073709551615", "y"}})
  \o One({[c |-> "bop create", k |-> B, cr |-> Cr(2, "")], [c |-> "bop upsert", k |-> B, b |-> "1", ef |-> "", v |-> "99", getrim |-> FALSE], [c |-> "bop upsert", k |-> B, b |-> "1", ef |-> "", v |-> "z", getrim |-> FALSE]})
Tick == [c |-> "tick", n |-> 1]
TimeOps ==
  One({[c |-> c, k |-> A, fl |-> "0", exp |-> e, v |-> "v"] : c \in {"set", "add"}, e \in {0, 1, 2, -1, -5}})
  \o One({[c |-> "append", k |-> A, fl |-> "0", exp |-> 0, v |-> "w"], [c |-> "replace", k |-> A, fl |-> "0", exp |-> 2, v |-> "v"]})
  \o One({[c |-> "touch", k |-> A, exp |-> e] : e \in {0, 1, 2, -1, -2}})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"expiretime", e>>>>] : e \in {"0", "2", "-1"}})
  \o One({[c |-> "incr", k |-> A, d |-> "1", init |-> "5", fl |-> "0", exp |-> 1]})
  \o One({[c |-> "sop create", k |-> A, cr |-> [Cr(0, "") EXCEPT !.exp = e]] : e \in {0, 1, -1}})
  \o One({[c |-> "sop insert", k |-> A, v |-> "m", cr |-> [Cr(0, "") EXCEPT !.exp = 1]]})
  \o One({[c |-> "delete", k |-> A]}) \o One({Tick})
LookAll == [c |-> "get", ks |-> <<A, Pa, Pb>>]
FlushOps ==
  One({[c |-> "set", k |-> k, fl |-> "0", exp |-> 0, v |-> "v"] : k \in {A, Pa, Pb}})
  \o One({[c |-> "lop insert", k |-> Pa, i |-> 0, v |-> "v", cr |-> Cr(0, "")]})
  \o <<<<Tick, LookAll>>>>
  \o [i \in 1..4 |-> <<[c |-> "flush_prefix", p |-> "p@@@@", d |-> i - 1, gone |-> FALSE], LookAll>>]
  \o One({[c |-> "delete", k |-> Pa]})
ListOps ==
  One({[c |-> "lop create", k |-> A, cr |-> Cr(2, ov)] : ov \in {"error", "head_trim", "tail_trim"}})
  \o One({[c |-> "lop insert", k |-> A, i |-> i, v |-> v] : i \in {0, 1, 2, -1, -2, -3}, v \in {"x", "y"}})
  \o One({[c |-> "lop insert", k |-> A, i |-> i, v |-> "z", cr |-> Cr(3, "")] : i \in {0, -1, 1}})
  \o One({[c |-> "lop delete", k |-> A, f |-> f, t |-> t, drop |-> d] : f \in {0, 1, -1, -2}, t \in {0, -1, 1}, d \in BOOLEAN})
  \o One({[c |-> "lop get", k |-> A, f |-> f, t |-> t, del |-> d] : f \in {0, 1, -1, 5, -3}, t \in {0, -1, 2, -2}, d \in {"", "delete", "drop"}})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"maxcount", n>>>>] : n \in {"1", "2", "3"}})
SetOps ==
  One({[c |-> "sop create", k |-> A, cr |-> Cr(3, "")]})
  \o One({[c |-> "sop insert", k |-> A, v |-> v] : v \in {"", "x", "y", "zz"}})
  \o One({[c |-> "sop insert", k |-> A, v |-> v, cr |-> Cr(2, "error")] : v \in {"x", "y"}})
  \o One({[c |-> "sop delete", k |-> A, v |-> v, drop |-> d] : v \in {"", "x", "y", "zz"}, d \in BOOLEAN})
  \o One({[c |-> "sop exist", k |-> A, v |-> v] : v \in {"", "x", "q"}})
  \o One({[c |-> "sop get", k |-> A, n |-> n, del |-> d, pick |-> <<>>] : n \in {0, 4}, d \in {"", "delete", "drop"}})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"maxcount", n>>>>] : n \in {"1", "2", "3"}})
MapOps ==
  One({[c |-> "mop create", k |-> A, cr |-> Cr(2, "")]})
  \o One({[c |-> c, k |-> A, f |-> f, v |-> v] : c \in {"mop insert", "mop upsert"}, f \in {"f", "g", "h"}, v \in {"x", ""}})
  \o One({[c |-> c, k |-> A, f |-> f, v |-> "n", cr |-> Cr(3, "error")] : c \in {"mop insert", "mop upsert"}, f \in {"f", "g"}})
  \o One({[c |-> "mop update", k |-> A, f |-> f, v |-> "u"] : f \in {"f", "g"}})
  \o One({[c |-> "mop delete", k |-> A, fs |-> q, drop |-> d] : q \in {<<>>, <<"f">>, <<"g", "f">>, <<"h", "h">>}, d \in BOOLEAN})
  \o One({[c |-> "mop get", k |-> A, fs |-> q, del |-> d, pick |-> <<>>] : q \in {<<>>, <<"f">>, <<"g", "f", "g">>}, d \in {"", "delete", "drop"}})
BkR == {<<"1", "">>, <<"1", "3">>, <<"3", "1">>, <<"2", "2">>, <<"0", "9">>, <<"9", "2">>}
F1 == [o |-> 0, bop |-> "", bv |-> "", cmp |-> "EQ", vs |-> <<"0x01">>]
F2 == [o |-> 0, bop |-> "&", bv |-> "0x02", cmp |-> "NE", vs |-> <<"0x00", "0x05">>]
BtOps ==
  One({[c |-> "bop create", k |-> A, cr |-> Cr(3, ov)] : ov \in {"error"}})
  \o One({[c |-> c, k |-> A, b |-> b, ef |-> e, v |-> v, getrim |-> FALSE] : c \in {"bop insert", "bop upsert"}, b \in {"1", "2", "3"}, e \in {"", "0x01"}, v \in {"5"}})
  \o One({[c |-> "bop insert", k |-> A, b |-> "0x02", ef |-> "", v |-> "h", getrim |-> FALSE, cr |-> Cr(2, "error")]})
  \o One({[c |-> "bop update", k |-> A, b |-> b, v |-> "7", up |-> [op |-> "", off |-> 0, val |-> "0x03"]] : b \in {"1", "2"}})
  \o One({[c |-> "bop update", k |-> A, b |-> "1", up |-> [op |-> o, off |-> 0, val |-> "0x02"]] : o \in {"|", "&", "^"}})
  \o One({[c |-> "bop delete", k |-> A, f |-> r[1], t |-> r[2], n |-> n, drop |-> d] : r \in BkR, n \in {0, 1}, d \in {TRUE}})
  \o One({[c |-> "bop delete", k |-> A, f |-> "0", t |-> "9", n |-> 0, drop |-> FALSE, flt |-> F1]})
  \o One({[c |-> "bop get", k |-> A, f |-> r[1], t |-> r[2], off |-> x, n |-> n, del |-> ""] : r \in BkR, x \in {0, 1}, n \in {0, 1, 2}})
  \o One({[c |-> "bop get", k |-> A, f |-> "9", t |-> "0", off |-> 0, n |-> n, del |-> d, flt |-> f] : n \in {0, 1}, d \in {"", "delete", "drop"}, f \in {F1, F2}})
  \o One({[c |-> "bop count", k |-> A, f |-> r[1], t |-> r[2]] : r \in BkR})
  \o One({[c |-> c, k |-> A, b |-> b, d |-> "2", ef |-> ""] : c \in {"bop incr", "bop decr"}, b \in {"1", "2"}})
  \o One({[c |-> "bop incr", k |-> A, b |-> "3", d |-> "2", init |-> "4", ef |-> "0x01"]})
TrimOps ==
  One({[c |-> "bop create", k |-> A, cr |-> Cr(2, ov)] : ov \in {"error", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"}})
  \o One({[c |-> c, k |-> A, b |-> b, ef |-> "", v |-> "v", getrim |-> g] : c \in {"bop insert", "bop upsert"}, b \in {"1", "2", "3", "4"}, g \in BOOLEAN})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"maxbkeyrange", r>>>>] : r \in {"0", "1", "2"}})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"maxcount", r>>>>] : r \in {"3", "1"}})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"overflowaction", r>>>>] : r \in {"error", "smallest_trim", "largest_trim"}})
  \o One({[c |-> "bop delete", k |-> A, f |-> b, t |-> "", n |-> 0, drop |-> FALSE] : b \in {"1", "2", "3", "4"}})
  \o One({[c |-> "bop get", k |-> A, f |-> r[1], t |-> r[2], off |-> 0, n |-> n, del |-> ""] : r \in {<<"0", "9">>, <<"9", "0">>, <<"2", "4">>, <<"3", "1">>, <<"1", "">>, <<"4", "">>}, n \in {0, 1}})
PosOps ==
  One({[c |-> "bop insert", k |-> A, b |-> b, ef |-> "", v |-> "v", getrim |-> FALSE, cr |-> Cr(4, "error")] : b \in {"1", "2", "3", "4"}})
  \o One({[c |-> "bop delete", k |-> A, f |-> b, t |-> "", n |-> 0, drop |-> FALSE] : b \in {"1", "2", "3", "4"}})
  \o One({[c |-> "bop position", k |-> A, b |-> b, ord |-> o] : b \in {"0", "1", "2", "3", "4"}, o \in {"asc", "desc"}})
  \o One({[c |-> "bop gbp", k |-> A, ord |-> o, pf |-> f, pt |-> t] : f \in {0, 1, 2, 3, 7}, t \in {0, 1, 2, 3, 8}, o \in {"asc", "desc"}})
  \o One({[c |-> "bop pwg", k |-> A, b |-> b, ord |-> o, n |-> n] : b \in {"1", "2", "3", "4"}, o \in {"asc", "desc"}, n \in {0, 1, 2}})
Smg(ks, f, t, off, n, m) == [c |-> "bop smget", ks |-> ks, f |-> f, t |-> t, off |-> off, n |-> n, mode |-> m, ptrim |-> <<>>]
MultiOps ==
  One({[c |-> "bop insert", k |-> k, b |-> b, ef |-> "", v |-> "v", getrim |-> FALSE, cr |-> Cr(2, ov)] : k \in {A, B}, b \in {"1", "2", "3"}, ov \in {"smallest_trim", "error"}})
  \o One({[c |-> "set", k |-> A, fl |-> "0", exp |-> 0, v |-> "kv"]})
  \o One({[c |-> "delete", k |-> k] : k \in {A, B}})
  \o One({[c |-> "bop mget", ks |-> q, f |-> r[1], t |-> r[2], off |-> x, n |-> n] : q \in {<<A, B>>, <<B, A, B>>}, r \in {<<"1", "3">>, <<"3", "2">>, <<"2", "">>}, x \in {0, 1}, n \in {1, 3}})
  \o One({Smg(q, r[1], r[2], x, n, m) : q \in {<<A, B>>, <<B, A>>, <<A>>}, r \in {<<"0", "3">>, <<"9", "2">>, <<"2", "3">>, <<"2", "">>}, x \in {0, 1}, n \in {1, 4}, m \in {"duplicate", "unique"}})
AttrOps ==
  One({[c |-> "lop create", k |-> A, cr |-> [Cr(2, "") EXCEPT !.rd = FALSE]], [c |-> "bop create", k |-> A, cr |-> [Cr(0, "") EXCEPT !.rd = FALSE]],
       [c |-> "mop create", k |-> A, cr |-> Cr(3, "")]})
  \o One({[c |-> "set", k |-> A, fl |-> "0", exp |-> 0, v |-> "kv"]}) \o One({[c |-> "delete", k |-> A]})
  \o One({[c |-> "bop insert", k |-> A, b |-> b, ef |-> "", v |-> "v", getrim |-> FALSE] : b \in {"1", "5"}})
  \o One({[c |-> "lop insert", k |-> A, i |-> 0, v |-> "v"]})
  \o One({[c |-> "setattr", k |-> A, sets |-> q] : q \in
       {<<<<"readable", "on">>>>, <<<<"readable", "off">>>>, <<<<"maxcount", "1">>>>, <<<<"maxcount", "0">>>>, <<<<"maxcount", "3">>, <<"overflowaction", "head_trim">>>>,
        <<<<"overflowaction", "largest_trim">>, <<"maxcount", "2">>>>, <<<<"maxbkeyrange", "4">>>>, <<<<"maxbkeyrange", "3">>, <<"readable", "on">>>>, <<<<"maxbkeyrange", "0">>>>,
        <<<<"expiretime", "100">>>>, <<<<"expiretime", "-1">>, <<"readable", "on">>>>, <<<<"type", "kv">>>>}})
  \o One({[c |-> "getattr", k |-> A, names |-> q] : q \in {<<"minbkey">>, <<"trimmed", "count">>, <<"flags", "type">>, <<"bogus">>}})
  \o One({[c |-> "lop get", k |-> A, f |-> 0, t |-> -1, del |-> ""]}) \o One({[c |-> "bop count", k |-> A, f |-> "0", t |-> "9"]})
  \o One({[c |-> "mop get", k |-> A, fs |-> <<"f">>, del |-> "", pick |-> <<>>]})
TypeOps ==
  One({[c |-> x, k |-> A, cr |-> Cr(2, "")] : x \in {"lop create", "sop create", "mop create", "bop create"}})
  \o One({[c |-> x, k |-> A, fl |-> "0", exp |-> 0, v |-> "1"] : x \in {"set", "add", "replace", "append"}})
  \o One({[c |-> "delete", k |-> A]})
  \o One({[c |-> "incr", k |-> A, d |-> "1"]}) \o One({[c |-> "cas", k |-> A, fl |-> "0", exp |-> 0, v |-> "1", id |-> "99999999999"]})
  \o One({[c |-> "touch", k |-> A, exp |-> 0]}) \o One({[c |-> "get", ks |-> <<A>>]})
  \o One({[c |-> "lop insert", k |-> A, i |-> 0, v |-> "l"], [c |-> "lop insert", k |-> A, i |-> 0, v |-> "l", cr |-> Cr(2, "")]})
  \o One({[c |-> "sop insert", k |-> A, v |-> "s"], [c |-> "sop insert", k |-> A, v |-> "s", cr |-> Cr(2, "")]})
  \o One({[c |-> x, k |-> A, f |-> "f", v |-> "m"] : x \in {"mop insert", "mop upsert", "mop update"}}) \o One({[c |-> "mop insert", k |-> A, f |-> "f", v |-> "m", cr |-> Cr(2, "")]})
  \o One({[c |-> x, k |-> A, b |-> "1", ef |-> "", v |-> "b", getrim |-> FALSE] : x \in {"bop insert", "bop upsert"}}) \o One({[c |-> "bop insert", k |-> A, b |-> "1", ef |-> "", v |-> "b", getrim |-> FALSE, cr |-> Cr(2, "")]})
  \o One({[c |-> "lop get", k |-> A, f |-> 0, t |-> -1, del |-> d] : d \in {"", "drop"}}) \o One({[c |-> "lop delete", k |-> A, f |-> 0, t |-> -1, drop |-> TRUE]})
  \o One({[c |-> "sop get", k |-> A, n |-> 0, del |-> "", pick |-> <<>>], [c |-> "sop exist", k |-> A, v |-> "s"]}) \o One({[c |-> "sop delete", k |-> A, v |-> "s", drop |-> TRUE]})
  \o One({[c |-> "mop get", k |-> A, fs |-> <<>>, del |-> "", pick |-> <<>>]}) \o One({[c |-> "mop delete", k |-> A, fs |-> <<>>, drop |-> FALSE]})
  \o One({[c |-> "bop get", k |-> A, f |-> "0", t |-> "9", off |-> 0, n |-> 0, del |-> ""]}) \o One({[c |-> "bop delete", k |-> A, f |-> "0", t |-> "9", n |-> 0, drop |-> TRUE]})
  \o One({[c |-> "bop count", k |-> A, f |-> "0", t |-> "9"]}) \o One({[c |-> "bop update", k |-> A, b |-> "1", v |-> "n"]}) \o One({[c |-> "bop incr", k |-> A, b |-> "1", d |-> "1", ef |-> ""]})
  \o One({[c |-> "bop position", k |-> A, b |-> "1", ord |-> "asc"]}) \o One({[c |-> "bop pwg", k |-> A, b |-> "1", ord |-> "asc", n |-> 1]}) \o One({[c |-> "bop gbp", k |-> A, ord |-> "asc", pf |-> 0, pt |-> 3]})
  \o One({[c |-> "bop mget", ks |-> <<A>>, f |-> "0", t |-> "9", off |-> 0, n |-> 5]}) \o One({Smg(<<A>>, "0", "9", 0, 5, "duplicate")})
  \o One({[c |-> "setattr", k |-> A, sets |-> <<<<"overflowaction", "error">>>>]})

(* pipelines: every sequence of two or three of these; only a well-formed command ends one *)
PipeSet == {[c |-> "lop insert", k |-> A, i |-> -1, v |-> "x", cr |-> Cr(3, "")], [c |-> "lop insert", k |-> A, i |-> 0, v |-> "y"], [c |-> "lop delete", k |-> A, f |-> 0, t |-> 0, drop |-> FALSE],
  [c |-> "sop exist", k |-> A, v |-> "x"], [c |-> "bop incr", k |-> B, b |-> "1", d |-> "1", ef |-> ""], [c |-> "mop delete", k |-> A, fs |-> <<"f">>, drop |-> FALSE],
  [c |-> "bad", w |-> "chunk", line |-> "mop insert a@@@@ f 3", data |-> "abcXY"], [c |-> "bad", w |-> "large", line |-> "sop insert a@@@@ 16383", pad |-> 16383]}
PipeBads == {[c |-> "bad", w |-> "format", line |-> "lop delete a@@@@ x"], [c |-> "bad", w |-> "format", line |-> "bop incr a@@@@ 1 0"]}
PipeOpsMC ==
  One({[c |-> "pipe", ops |-> <<a, z>>] : a \in PipeSet \cup PipeBads, z \in PipeSet})
  \o One({[c |-> "pipe", ops |-> <<a, b, z>>] : a \in PipeSet \cup PipeBads, b \in PipeSet \cup PipeBads, z \in PipeSet})
  \o One({[c |-> "bop insert", k |-> B, b |-> "1", ef |-> "", v |-> v, getrim |-> FALSE, cr |-> Cr(3, "error")] : v \in {"5", "q"}})

OPS == CASE Model = "kv" -> KvOps({A, B}) [] Model = "cas" -> CasOps [] Model = "arith" -> ArithOps [] Model = "time" -> TimeOps [] Model = "flush" -> FlushOps
         [] Model = "list" -> ListOps [] Model = "set" -> SetOps [] Model = "map" -> MapOps [] Model = "btree" -> BtOps
         [] Model = "trim" -> TrimOps [] Model = "pos" -> PosOps [] Model = "multi" -> MultiOps [] Model = "attr" -> AttrOps
         [] Model = "type" -> TypeOps [] Model = "pipe" -> PipeOpsMC

(* reads that together show everything a client can see of the keys *)
Attrs(k) == [c |-> "getattr", k |-> k, names |-> <<>>]
ProbesOf(k) == <<Attrs(k), Get1(k),
  [c |-> "lop get", k |-> k, f |-> 0, t |-> -1, del |-> ""], [c |-> "sop get", k |-> k, n |-> 0, del |-> "", pick |-> <<>>],
  [c |-> "mop get", k |-> k, fs |-> <<>>, del |-> "", pick |-> <<>>],
  [c |-> "bop get", k |-> k, f |-> "0", t |-> "9", off |-> 0, n |-> 0, del |-> ""], [c |-> "bop get", k |-> k, f |-> "9", t |-> "0", off |-> 0, n |-> 0, del |-> ""]>>
PROBES == IF Model \in {"kv", "cas"} THEN <<[c |-> "get", ks |-> <<A, B>>]>>
          ELSE IF Model = "flush" THEN <<[c |-> "get", ks |-> <<A, Pa, Pb>>], Attrs(Pa)>>
          ELSE IF Model = "time" THEN <<Attrs(A), Get1(A), [c |-> "sop get", k |-> A, n |-> 0, del |-> "", pick |-> <<>>]>>
          ELSE IF Model = "arith" THEN <<Get1(A), Attrs(A), Attrs(B), [c |-> "bop get", k |-> B, f |-> "0", t |-> "9", off |-> 0, n |-> 0, del |-> ""]>>
          ELSE IF Model \in {"multi", "pipe"} THEN ProbesOf(A) \o ProbesOf(B)
          ELSE ProbesOf(A)

(* ---------------------------------------------------------------- execution *)
(* what only the server decides is decided here: the order of sets and maps (the replay ignores it) and cas ids *)
Fill(s, o) ==
  IF "pick" \in DOMAIN o
  THEN [o EXCEPT !.pick = IF ~IsColl(s, o.k) THEN <<>> ELSE LET it == It(s, o.k) IN
        IF it.ty = "set" /\ o.c = "sop get" THEN SetToSeq(it.el) ELSE IF it.ty = "map" /\ o.c = "mop get" THEN SetToSeq(DOMAIN it.el) ELSE <<>>]
  ELSE IF "cas" \in DOMAIN o THEN [o EXCEPT !.cas = [i \in 1..Len(o.ks) |-> "#" \o N(Cardinality(Used(s, o.ks[i])) + 1)]]
  ELSE o
RECURSIVE Run(_, _, _, _)
Run(s, ops, i, acc) == IF i > Len(ops) THEN [st |-> s, rs |-> acc]
                       ELSE LET x == Serve(s, Fill(s, ops[i])) IN Run(x.st, ops, i + 1, Append(acc, x.r))

(* --------------------------------------------------------------------- laws *)
Shown(s) == [k \in LiveKeys(s) |-> s.items[k]]
NoCas(f) == [k \in DOMAIN f |-> IF "cas" \in DOMAIN f[k] THEN [f[k] EXCEPT !.cas = ""] ELSE f[k]]
NoTr(f) == [k \in DOMAIN f |-> IF "tr" \in DOMAIN f[k] THEN [f[k] EXCEPT !.tr = FALSE] ELSE f[k]]
Reads == {"get", "gets", "mget", "mgets", "sop exist", "bop count", "bop position", "bop pwg", "bop gbp", "bop mget", "bop smget", "getattr"}
IsRead(o) == o.c \in Reads \/ ("del" \in DOMAIN o /\ o.del = "")
Refusals == {"NOT_STORED", "EXISTS", "NOT_FOUND", "NOT_FOUND_ELEMENT", "ELEMENT_EXISTS", "OVERFLOWED", "OUT_OF_RANGE", "TYPE_MISMATCH",
             "BKEY_MISMATCH", "EFLAG_MISMATCH", "UNREADABLE", "NOTHING_TO_UPDATE"}
Refused(r) == Len(r) = 1 /\ (r[1] \in Refusals \/ (Len(r[1]) > 10 /\ Prefix(r[1], 10) \in {"CLIENT_ERR", "ATTR_ERROR"}))
Keys(o) == Asked(o)
Plain(o) == [f \in DOMAIN o \ {"nr"} |-> o[f]]
StepLaw(s, o, x) ==
  LET a == Shown(s)  b == Shown(x.st)
      ra == NoTr(a)  rb == NoTr(b) IN
  \* a refused command and a read change nothing a client can see (an insert refused at the trimmed end counts as a trim)
  /\ (Refused(x.r) /\ o.c # "big" => ra = rb /\ (x.r[1] # "OUT_OF_RANGE" => a = b))
  /\ (IsRead(o) => NoCas(a) = NoCas(b))
  \* a command touches only its own keys
  /\ (o.c \notin {"tick", "clock", "flush_all", "flush_prefix"} => \A k \in (DOMAIN a \cup DOMAIN b) \ Keys(o) : k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k])
  \* time and flushing only take away; nothing taken away comes back without being stored again
  /\ (o.c \in {"tick", "flush_all", "flush_prefix"} => DOMAIN b \subseteq DOMAIN a /\ \A k \in DOMAIN b : a[k] = b[k])
  /\ \A k \in DOMAIN b \ DOMAIN a : b[k].tm = x.st.now /\ o.c \notin {"tick", "touch", "setattr", "delete", "flush_all", "flush_prefix"}
  \* commands of one type are refused on the others
  /\ (o.c \notin {"big", "tick"} /\ "k" \in DOMAIN o /\ Has(s, o.k) /\ "nr" \notin DOMAIN o
      => LET w == IF Len(o.c) > 4 THEN Prefix(o.c, 4) ELSE o.c
             want == IF w = "lop " THEN "list" ELSE IF w = "sop " THEN "set" ELSE IF w = "mop " THEN "map" ELSE IF w = "bop " THEN "b+tree"
                     ELSE IF o.c \in {"set", "add", "replace", "append", "prepend", "cas", "incr", "decr"} THEN "kv" ELSE "any"
             create == o.c \in {"lop create", "sop create", "mop create", "bop create"}
         IN (want # "any" /\ ~create => ((x.r = <<"TYPE_MISMATCH">>) <=> (s.items[o.k].ty # want)))
            /\ (create => x.r = <<"EXISTS">>))
  \* noreply changes the answer and nothing else
  /\ ("nr" \in DOMAIN o => x.r = <<>> /\ Exec(s, Plain(o)).st = x.st)
RECURSIVE RunLaw(_, _, _)
(* a pipeline has the effect of the commands it reports, sent one by one, in order; it reports all of them unless one is refused severely *)
RECURSIVE OneByOne(_, _, _)
OneByOne(s, ops, i) == IF i > Len(ops) THEN s ELSE OneByOne(Single(s, ops[i]).st, ops, i + 1)
PipeLaw(s, o, x) ==
  LET n == Len(x.r) - 2 IN
  /\ x.r[1] = "RESPONSE " \o N(n) /\ x.st = OneByOne(s, SubSeq(o.ops, 1, n), 1)
  /\ (x.r[Len(x.r)] = "END" <=> n = Len(o.ops) /\ ~Severe(x.r[n + 1]))
  /\ \A i \in 1..n : x.r[i + 1] = Single(OneByOne(s, SubSeq(o.ops, 1, i - 1), 1), o.ops[i]).r[1] /\ (Severe(x.r[i + 1]) => i = n)
RunLaw(s, ops, i) == i > Len(ops) \/ (LET o == Fill(s, ops[i])  x == Serve(s, o) IN (IF o.c = "pipe" THEN PipeLaw(s, o, x) ELSE StepLaw(s, o, x)) /\ RunLaw(x.st, ops, i + 1))

Sorted(el) == \A i \in 1..(Len(el) - 1) : Lt(el[i].b, el[i + 1].b)
(* laws of one tree, stated independently of how the commands are defined *)
Lim == {"0", "1", "2", "3", "4", "9"}
TreeLaw(s, k) ==
  LET it == It(s, k)  n == Len(it.el)
      G(f, t, off, c) == BGet(it, [c |-> "bop get", k |-> k, f |-> f, t |-> t, off |-> off, n |-> c, del |-> ""], off, c).es
      In(f, t) == {i \in 1..n : ~Lt(it.el[i].b, ParseDigits(f)) /\ ~Lt(ParseDigits(t), it.el[i].b)}
  IN /\ Sorted(it.el) /\ n <= EffMax(s, it)
     /\ (n >= 2 /\ it.mr # <<>> => ~Exceeds(it, it.el[n].b, it.el[1].b))
     /\ (n > 0 => it.bt # "")
     /\ (it.tr => Loud(it))
     /\ (n > 0 /\ it.bt = "u" /\ it.rd =>
          \A f, t \in Lim :
            LET up == G(f, t, 0, 0)  down == G(t, f, 0, 0)  le == ~Lt(ParseDigits(t), ParseDigits(f)) IN
            \* exactly the elements in the range, in order; the other direction reverses; offset and count slice
            /\ (le => ToSet(up) = {it.el[i] : i \in In(f, t)} /\ Sorted(up))
            /\ down = Rev(up)
            /\ (f # t => \A off \in 0..2, c \in 1..2 : G(f, t, off, c) = (IF off >= n THEN <<>> ELSE Cut(up, off, c)))
            /\ Do(s, [c |-> "bop count", k |-> k, f |-> f, t |-> t]).r = <<"COUNT=" \o N(Len(up))>>)
     \* rank, position and neighbours agree with the order
     /\ (n > 0 /\ it.rd => \A i \in 1..n, o \in {"asc", "desc"} :
          LET p == IF o = "asc" THEN i - 1 ELSE n - i IN
          /\ BopPosition(s, [k |-> k, b |-> it.el[i].s, ord |-> o]).r = <<"POSITION=" \o N(p)>>
          /\ BopGbp(s, [k |-> k, ord |-> o, pf |-> p, pt |-> p]).r = <<"VALUE " \o it.fl \o " 1", Line(it.el[i]), "END">>)
ItemLaw(s, k) ==
  LET it == It(s, k) IN
  /\ (it.ty # "kv" => Count(it) <= EffMax(s, it))
  /\ (it.ty = "b+tree" => TreeLaw(s, k))
  /\ (it.exp = 0 \/ it.exp = -1 \/ it.exp > s.now)
(* two-tree laws: smget is the merge, mget the single reads *)
Elems(s, k) == IF Has(s, k) /\ It(s, k).ty = "b+tree" THEN It(s, k).el ELSE <<>>
MergeLaw(s) ==
  Model = "multi" /\ (\A k \in {A, B} : Elems(s, k) # <<>> => ~It(s, k).tr) =>
    LET r == Do(s, Smg(<<A, B>>, "0", "9", 0, 4, "duplicate")).r
        u == Do(s, Smg(<<A, B>>, "0", "9", 0, 4, "unique")).r
        na == Len(Elems(s, A))  nb == Len(Elems(s, B))
        dup == Cardinality({e.b : e \in ToSet(Elems(s, A))} \cap {e.b : e \in ToSet(Elems(s, B))})
    IN r[1] \in {"ELEMENTS " \o N(na + nb), "OUT_OF_RANGE", "NOT_FOUND", "TYPE_MISMATCH"} /\ u[1] \in {"ELEMENTS " \o N(na + nb - dup), "OUT_OF_RANGE", "NOT_FOUND", "TYPE_MISMATCH"}
Laws == (\A k \in LiveKeys(st) : ItemLaw(st, k)) /\ MergeLaw(st)

(* ------------------------------------------------------------------ the model *)
Fp(s) == ToString(TLCFP(s))
(* a state the model should not pursue: values grow without bound *)
Small(s) == \A k \in DOMAIN s.items : s.items[k].ty = "kv" /\ Model # "arith" => Len(s.items[k].v) <= 2
(* commands whose outcome depends on when the server removes dead items are left to the recorded runs *)
Sure(s, ops) == \A i \in 1..Len(ops) : ops[i].c = "flush_prefix" =>
                  LET mine == {k \in DOMAIN s.items : Under(k, ops[i].p)} IN mine = {} \/ \E k \in mine : Live(s, k, s.items[k])
Enough(s) == Cardinality(UNION {s.used[k] : k \in DOMAIN s.used}) <= 3
Quiet == SelectSeq(<<1>>, LAMBDA x : FALSE)
Init == st = InitState(100) /\ path = <<>>
        /\ PrintT("OPS " \o ToJson(OPS)) /\ PrintT("PROBES " \o ToJson(PROBES))
Next == /\ Len(path) < Depth
        /\ \E i \in 1..Len(OPS) :
             /\ Sure(st, OPS[i])
             /\ LET x == Run(st, OPS[i], 1, <<>>) IN
                /\ st' = x.st /\ path' = Append(path, i)
                /\ Assert(RunLaw(st, OPS[i], 1), <<"a step breaks a law", st, OPS[i], x>>)
                /\ PrintT("E " \o ToJson([p |-> path, i |-> i, r |-> x.rs, t |-> Fp(x.st)]))
Spec == Init /\ [][Next]_vars
Bound == Small(st) /\ Enough(st)
View == st
Seen == PrintT("S " \o ToJson([t |-> Fp(st), r |-> Run(st, PROBES, 1, <<>>).rs]))
=============================================================================
