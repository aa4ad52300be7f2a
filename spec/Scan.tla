-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Scanning: a client walks over all keys, or all prefixes, step by step,  *)
(* while the contents change (and the hash table grows).                   *)
(*   st.scans  scan -> [must: keys or prefixes there all the time since    *)
(*             the walk began, seen: those reported so far, bg0: how much  *)
(*             of the crowd was there at the beginning, bgs: how much of   *)
(*             it was seen, steps]                                         *)
(*   st.bg     the crowd: [bg |-> m, bp |-> n]: that many keys bgNNNNNN,   *)
(*             and bpNNNNNN:k of a prefix each, that stay to the end; they *)
(*             fill the table and are only counted                         *)
(***************************************************************************)
EXTENDS Acct

Letter == [kv |-> "K", list |-> "L", set |-> "S", map |-> "M"] @@ ("b+tree" :> "B")
Reserved == "arcus"              \* keys under this prefix are the server's own affair and are not shown
InSight(k) == Reserved \notin KeyPrefixes(k)

(* ---------------------------------------------------------------- patterns *)
Special == {"*", "?", "\\"}
RECURSIVE PatternOk(_, _, _)
PatternOk(p, i, stars) ==
  IF i > Len(p) THEN stars <= 4
  ELSE IF Ch(p, i) = "\\" THEN i < Len(p) /\ Ch(p, i + 1) \in Special /\ PatternOk(p, i + 2, stars)
  ELSE PatternOk(p, i + 1, IF Ch(p, i) = "*" THEN stars + 1 ELSE stars)
GoodPattern(p) == Len(p) >= 1 /\ Len(p) <= 64 /\ PatternOk(p, 1, 0)

(* what matches: * any text, ? any one character, a backslash takes the next character for what it is *)
RECURSIVE GlobFrom(_, _, _, _)
GlobFrom(t, i, p, j) ==
  IF j > Len(p) THEN i > Len(t)
  ELSE LET c == Ch(p, j) IN
       IF c = "*" THEN GlobFrom(t, i, p, j + 1) \/ (i <= Len(t) /\ GlobFrom(t, i + 1, p, j))
       ELSE i <= Len(t) /\ (IF c = "\\" THEN Ch(t, i) = Ch(p, j + 1) /\ GlobFrom(t, i + 1, p, j + 2)
                            ELSE (c = "?" \/ Ch(t, i) = c) /\ GlobFrom(t, i + 1, p, j + 1))
Glob(t, p) == p = "" \/ GlobFrom(t, 1, p, 1)       \* (no pattern: everything)

(* --------------------------------------------------------------- the walk *)
LivePrefixes(st) == UNION {IF KeyPrefixes(k) = {} THEN {NullPrefix} ELSE KeyPrefixes(k) : k \in {x \in LiveKeys(st) : InSight(x)}}
There(st, kind) == IF kind = "key" THEN {k \in LiveKeys(st) : InSight(k)}
                   ELSE LivePrefixes(st) \cup (IF st.bg.bg > 0 THEN {NullPrefix} ELSE {})
Begun(st, o) == [kind |-> o.kind, must |-> There(st, o.kind), seen |-> {}, bg0 |-> st.bg, bgs |-> [bg |-> 0, bp |-> 0], steps |-> 0]

(* the name a pattern is held against: that of the keys without a prefix is empty *)
NameOf(kind, x) == IF kind = "prefix" /\ x = NullPrefix THEN "" ELSE x
Sample(kind) == IF kind = "key" THEN [bg |-> "bg000000", bp |-> "bp000000:k"] ELSE [bp |-> "bp000000"]

(* o.got = [n: how many the reply announced, list: what it listed (k, t, e of a key; k, n, b, at of a prefix),
            bg, bp: how many of the crowd it listed that were there at the beginning and are listed for the first time,
            more: how many of the crowd in all, odd: what is wrong with some of the crowd, or with the form of the reply,
            cur: the cursor]  -- or [err: a line] *)
KeyWrong(st, o, e) ==
  IF ~Has(st, e.k) \/ ~InSight(e.k) THEN {"no such key: " \o e.k}
  ELSE (IF e.t # Letter[It(st, e.k).ty] THEN {e.k \o " is of type " \o Letter[It(st, e.k).ty]} ELSE {})
       \cup (IF o.ty \notin {"A", Letter[It(st, e.k).ty]} THEN {e.k \o " is not of the type asked for"} ELSE {})
       \cup (IF e.e # ToString(Left(st, It(st, e.k).exp)) THEN {e.k \o " expires in " \o ToString(Left(st, It(st, e.k).exp))} ELSE {})
       \cup (IF ~Glob(e.k, o.pat) THEN {e.k \o " does not match"} ELSE {})
PrefixEntryWrong(st, o, e) ==
  LET mine == {k \in DOMAIN st.items : Under(k, e.k)}  crowd == IF e.k = NullPrefix THEN st.bg.bg ELSE 0
      lo == Sum(LAMBDA k : Payload(k, It(st, k)), mine) + 9 * crowd  hi == Sum(LAMBDA k : Room(k, It(st, k)), mine) + 200 * crowd
  IN IF (mine = {} /\ crowd = 0) \/ e.k = Reserved THEN {"no such prefix: " \o e.k}
     ELSE Wrong(e.k \o " items", e.n, Cardinality(mine) + crowd)
          \cup (IF e.b < lo \/ e.b > hi THEN {e.k \o " bytes " \o N(e.b) \o " not in " \o N(lo) \o ".." \o N(hi)} ELSE {})
          \cup (IF e.k # NullPrefix /\ e.at > st.now THEN {e.k \o " comes from the future"} ELSE {})
          \cup (IF ~Glob(NameOf("prefix", e.k), o.pat) THEN {e.k \o " does not match"} ELSE {})
ScanWrong(st, o, s, t) ==        \* s, t: the walk before and after this step
  LET g == o.got  names == {g.list[i].k : i \in 1..Len(g.list)}
      want(x) == Glob(NameOf(o.kind, x), o.pat) /\ (o.kind = "prefix" \/ o.ty \in {"A", Letter[It(st, x).ty]})
      crowd(c) == IF c \in DOMAIN Sample(o.kind) /\ Glob(Sample(o.kind)[c], o.pat) /\ (o.kind = "prefix" \/ o.ty \in {"A", "K"}) THEN s.bg0[c] ELSE 0
  IN ToSet(g.odd)
     \cup UNION {IF o.kind = "key" THEN KeyWrong(st, o, g.list[i]) ELSE PrefixEntryWrong(st, o, g.list[i]) : i \in 1..Len(g.list)}
     \cup Wrong("announced", g.n, Len(g.list) + g.more)
     \cup (IF Cardinality(names) # Len(g.list) THEN {"listed twice in one reply"} ELSE {})
     \cup (IF \E c \in {"bg", "bp"} : t.bgs[c] > crowd(c) THEN {"the crowd was not asked for"} ELSE {})
     \cup (IF t.steps > 40000 + s.bg0.bg + s.bg0.bp THEN {"the walk does not end"} ELSE {})
     \cup (IF g.cur # "0" THEN {}
           ELSE {x \o " was there all the time and was not listed" : x \in {y \in s.must : want(y)} \ t.seen}
                \cup UNION {Wrong("crowd " \o c, t.bgs[c], crowd(c)) : c \in {"bg", "bp"}})
Refusal(o) ==
  IF Len(o.cur) > 31 THEN "CLIENT_ERROR bad cursor value"
  ELSE IF o.n < 1 \/ o.n > 2000 THEN "CLIENT_ERROR bad count value"
  ELSE IF o.pat # "" /\ ~GoodPattern(o.pat) THEN "CLIENT_ERROR bad pattern string"
  ELSE IF o.kind = "key" /\ o.ty \notin {"A", "K", "L", "S", "M", "B"} THEN "CLIENT_ERROR bad item type"
  ELSE ""
ScanStep(st0, o) ==
  LET st == Reap(st0, o)  g == o.got IN
  IF Refusal(o) # "" \/ "err" \in DOMAIN g
  THEN R(st, IF "err" \in DOMAIN g /\ g.err = Refusal(o) THEN <<>> ELSE <<"refusal: " \o Refusal(o)>>)
  ELSE LET s == IF o.start THEN Begun(st, o) ELSE st.scans[o.id]
           t == [s EXCEPT !.seen = @ \cup {g.list[i].k : i \in 1..Len(g.list)}, !.bgs = [bg |-> @.bg + g.bg, bp |-> @.bp + g.bp], !.steps = @ + o.hops]
           rest == [x \in DOMAIN st.scans \ {o.id} |-> st.scans[x]]
       IN R([st EXCEPT !.scans = IF g.cur = "0" THEN rest ELSE (o.id :> t) @@ rest], SetToSeq(ScanWrong(st, o, s, t)))

(* every other command: what it removed, or let expire, need not be listed any more *)
Watch(x) ==
  IF DOMAIN x.st.scans = {} THEN x
  ELSE [x EXCEPT !.st.scans = [i \in DOMAIN @ |-> [@[i] EXCEPT !.must = @ \cap There(x.st, x.st.scans[i].kind)]]]

(* more of the crowd *)
Crowd(st, o) == R([st EXCEPT !.bg = [bg |-> @.bg + o.bg, bp |-> @.bp + o.bp]], <<>>)
=============================================================================
