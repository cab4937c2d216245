------------------------------ MODULE Elements ------------------------------
(* Executable semantics of flatland element trees.                            *)
(*                                                                            *)
(* A schema is [k, name, kids, ...]; an element is                            *)
(*   [sc |-> schema, v |-> native value, u |-> text, keys |-> <<names>>,      *)
(*    kids |-> <<elements>>]                                                  *)
(* Scalars carry v and u.  Sequences carry kids.  Mappings carry keys and     *)
(* kids in schema order.  Every public mutator is an operator returning       *)
(* [e |-> new element, r |-> result].                                         *)
EXTENDS Scalars

SeqKinds == {"list", "array", "mv", "joined"}
MapKinds == {"dict", "sdict", "date3"}
IsScalar(el) == el.sc.k \in ScalarKinds
IsSeq(el)    == el.sc.k \in SeqKinds
IsMap(el)    == el.sc.k \in MapKinds
Member(sc)   == sc.kids[1]

Res(e, r) == [e |-> e, r |-> r]
IsExc(r)  == StartsWith(r, "exc:")
Flag(b)   == IF b THEN "T" ELSE "F"

Leaf(sc, v, u)         == [sc |-> sc, v |-> v, u |-> u, keys |-> <<>>, kids |-> <<>>]
SeqEl(sc, kids)        == [sc |-> sc, v |-> "", u |-> "", keys |-> <<>>, kids |-> kids]
MapEl(sc, keys, kids)  == [sc |-> sc, v |-> "", u |-> "", keys |-> keys, kids |-> kids]

RECURSIVE New(_)
MinimumKids(sc) ==
  IF sc.k = "sdict"
  THEN IF sc.min = "required" THEN SelectSeq(sc.kids, LAMBDA f : ~f.opt) ELSE <<>>
  ELSE sc.kids
New(sc) ==
  IF sc.k \in ScalarKinds THEN Leaf(sc, NoVal, "")
  ELSE IF sc.k \in SeqKinds THEN SeqEl(sc, <<>>)
  ELSE LET fs == MinimumKids(sc) IN
       MapEl(sc, [i \in 1..Len(fs) |-> fs[i].name], [i \in 1..Len(fs) |-> New(fs[i])])

(* mapping access *)
HasKey(el, key)  == IndexIn(el.keys, key) # 0
Kid(el, key)     == el.kids[IndexIn(el.keys, key)]
FieldIdx(sc, key) == LET m == {i \in 1..Len(sc.kids) : sc.kids[i].name = key}
                     IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
Knows(sc, key)   == FieldIdx(sc, key) # 0
(* put a child under key, keeping schema order *)
PutKey(el, key, kid) ==
  IF HasKey(el, key) THEN [el EXCEPT !.kids[IndexIn(el.keys, key)] = kid]
  ELSE LET pos == Cardinality({i \in 1..Len(el.keys) :
                                 FieldIdx(el.sc, el.keys[i]) < FieldIdx(el.sc, key)}) + 1
       IN [el EXCEPT !.keys = InsertAtIdx(el.keys, pos, key), !.kids = InsertAtIdx(el.kids, pos, kid)]
DropKey(el, key) ==
  LET i == IndexIn(el.keys, key)
  IN [el EXCEPT !.keys = RemoveAtIdx(el.keys, i), !.kids = RemoveAtIdx(el.kids, i)]

-----------------------------------------------------------------------------
(* Values *)

DateText(y, m, d) == PadInt(y, 4) \o "-" \o PadInt(m, 2) \o "-" \o PadInt(d, 2)
(* the composed [v, u] of a DateYYYYMMDD from the three part values *)
ComposeDate(el) ==
  LET part(i) == el.kids[i].v
  IN IF \E i \in 1..3 : ~StartsWith(part(i), "i:") THEN [v |-> NoVal, u |-> ""]
     ELSE LET txt == DateText(Drop(part(1), 2), Drop(part(2), 2), Drop(part(3), 2))
          IN IF DateOk(txt) THEN [v |-> "date:" \o txt, u |-> txt] ELSE [v |-> NoVal, u |-> ""]

RECURSIVE ValueOf(_), TextOf(_)
(* text of an element where it does not depend on mapping order *)
TextOf(el) ==
  CASE IsScalar(el)      -> el.u
    [] el.sc.k = "mv"     -> IF el.kids = <<>> THEN "" ELSE TextOf(el.kids[1])
    [] el.sc.k = "joined" -> Join([i \in 1..Len(el.kids) |-> TextOf(el.kids[i])], el.sc.jsep)
    [] el.sc.k = "date3"  -> ComposeDate(el).u
    [] OTHER -> "<" \o Join([i \in 1..Len(el.kids) |-> TextOf(el.kids[i])], "|") \o ">"
ValueOf(el) ==
  CASE IsScalar(el)      -> el.v
    [] el.sc.k = "mv"     -> IF el.kids = <<>> THEN NoVal ELSE ValueOf(el.kids[1])
    [] el.sc.k = "joined" -> "s:" \o TextOf(el)
    [] el.sc.k = "date3"  -> ComposeDate(el).v
    [] el.sc.k \in {"list", "array"} ->
         "[" \o Join([i \in 1..Len(el.kids) |-> ValueOf(el.kids[i])], ",") \o "]"
    [] OTHER -> "{" \o Join([i \in 1..Len(el.kids) |-> el.keys[i] \o "=" \o ValueOf(el.kids[i])], ",") \o "}"

RECURSIVE IsEmpty(_)
IsEmpty(el) ==
  CASE el.sc.k = "str"   -> el.v \in {NoVal, "s:"} /\ el.u = ""
    [] IsScalar(el)      -> el.v = NoVal /\ el.u = ""
    [] IsSeq(el)         -> el.kids = <<>>
    [] el.sc.k = "sdict" -> el.keys = <<>>
    [] el.sc.k = "date3" -> \A i \in 1..Len(el.kids) : IsEmpty(el.kids[i])
    [] OTHER             -> FALSE

Same(a, b) == ValueOf(a) = ValueOf(b) /\ TextOf(a) = TextOf(b)

-----------------------------------------------------------------------------
(* set() *)

(* what iterating a Python value yields; ok FALSE when not iterable *)
Items(pv) ==
  CASE pv.t = "l" -> [ok |-> TRUE, l |-> pv.l]
    [] pv.t = "s" -> [ok |-> TRUE, l |-> [i \in 1..Len(pv.s) |-> TextPV(Ch(pv.s, i))]]
    [] pv.t = "d" -> [ok |-> TRUE, l |-> [i \in 1..Len(pv.ks) |-> TextPV(pv.ks[i])]]
    [] OTHER      -> [ok |-> FALSE, l |-> <<>>]
(* the (key, value) pairs of a dict-like or pair-sequence Python value *)
IsPair(pv) == pv.t = "l" /\ Len(pv.l) = 2 /\ pv.l[1].t = "s"
Pairs(pv) ==
  CASE pv.t = "d" -> [ok |-> TRUE, l |-> [i \in 1..Len(pv.ks) |-> <<pv.ks[i], pv.l[i]>>]]
    [] pv.t = "l" /\ \A i \in 1..Len(pv.l) : IsPair(pv.l[i]) ->
         [ok |-> TRUE, l |-> [i \in 1..Len(pv.l) |-> <<pv.l[i].l[1].s, pv.l[i].l[2]>>]]
    [] OTHER -> [ok |-> FALSE, l |-> <<>>]

RECURSIVE SetEl(_, _), SetMembers(_, _, _, _), SetPairs(_, _, _, _)

SetScalar(el, pv) ==
  LET a == Adapt(el.sc, pv) IN Res([el EXCEPT !.v = a.v, !.u = a.u], Flag(a.ok))

(* members built one by one: [l, ok, exc] *)
SetMembers(msc, items, i, acc) ==
  IF i > Len(items) THEN acc
  ELSE LET s == SetEl(New(msc), items[i]) IN
       IF IsExc(s.r) THEN [acc EXCEPT !.exc = s.r]
       ELSE SetMembers(msc, items, i + 1,
                       [acc EXCEPT !.l = Append(acc.l, s.e), !.ok = acc.ok /\ s.r = "T"])

SetSequence(el, pv) ==
  LET blank == SeqEl(el.sc, <<>>)
      it == Items(pv)
  IN IF ~it.ok THEN Res(blank, "F")
     ELSE LET m == SetMembers(Member(el.sc), it.l, 1, [l |-> <<>>, ok |-> TRUE, exc |-> ""])
          IN IF m.exc = "exc:TypeError" THEN Res(blank, "F")
             ELSE IF m.exc # "" THEN Res(blank, m.exc)
             ELSE Res(SeqEl(el.sc, m.l), Flag(m.ok))

(* falsy pieces are dropped when pruning *)
SetJoined(el, pv) ==
  IF pv.t \notin {"l", "s", "d"} THEN Res(el, "exc:TypeError")
  ELSE LET pieces == IF pv.t = "s"
                     THEN LET ss == IF pv.s = "" THEN <<"">> ELSE SplitBy(pv.s, el.sc.jsep)
                              trim(i) == IF ~el.sc.jre THEN ss[i]
                                         ELSE LET x == IF i > 1 THEN LStripSet(ss[i], Space) ELSE ss[i]
                                              IN IF i < Len(ss) THEN RStripSet(x, Space) ELSE x
                          IN [i \in 1..Len(ss) |-> TextPV(trim(i))]
                     ELSE Items(pv).l
           kept == IF el.sc.prune THEN SelectSeq(pieces, LAMBDA p : p.tr) ELSE pieces
           m == SetMembers(Member(el.sc), kept, 1, [l |-> <<>>, ok |-> TRUE, exc |-> ""])
       IN Res(SeqEl(el.sc, m.l), Flag(m.ok))

(* Dict.set: pairs applied in order onto a reset mapping *)
SetPairs(el, ps, i, acc) ==          \* acc: [ok, seen, pol]
  IF i > Len(ps) THEN
     IF acc.pol = "strict" /\ acc.seen # Range2([j \in 1..Len(el.sc.kids) |-> el.sc.kids[j].name])
     THEN Res(el, "exc:TypeError") ELSE Res(el, Flag(acc.ok))
  ELSE LET key == ps[i][1] IN
       IF ~Knows(el.sc, key)
       THEN IF acc.pol = "duck" THEN SetPairs(el, ps, i + 1, acc) ELSE Res(el, "exc:KeyError")
       ELSE LET base == IF HasKey(el, key) THEN Kid(el, key) ELSE New(el.sc.kids[FieldIdx(el.sc, key)])
                s == SetEl(base, ps[i][2])
                el2 == PutKey(el, key, s.e)
            IN IF IsExc(s.r) THEN Res(el2, s.r)
               ELSE SetPairs(el2, ps, i + 1,
                             [acc EXCEPT !.ok = acc.ok /\ s.r = "T", !.seen = acc.seen \cup {key}])

SetMapping(el, pv, pol) ==
  LET p == Pairs(pv) IN
  IF ~p.ok THEN Res(New(el.sc), IF pv.t \in {"n", "i", "b"} THEN "exc:TypeError" ELSE "exc:any")
  ELSE SetPairs(New(el.sc), p.l, 1, [ok |-> TRUE, seen |-> {}, pol |-> pol])

(* DateYYYYMMDD.set: adapt as a date, then explode over the parts *)
SetDate(el, pv) ==
  LET a == AdaptTemporal([k |-> "date", strip |-> TRUE], pv)
      part(i) == IF a.v = NoVal THEN NonePV
                 ELSE TextPV(CASE i = 1 -> SubSeq(a.u, 1, 4) [] i = 2 -> SubSeq(a.u, 6, 7)
                               [] OTHER -> SubSeq(a.u, 9, 10))
  IN Res([el EXCEPT !.kids = [i \in 1..3 |-> SetScalar(el.kids[i], part(i)).e]], Flag(a.ok))

SetEl(el, pv) ==
  CASE IsScalar(el)       -> SetScalar(el, pv)
    [] el.sc.k = "joined" -> SetJoined(el, pv)
    [] IsSeq(el)          -> SetSequence(el, pv)
    [] el.sc.k = "date3"  -> SetDate(el, pv)
    [] OTHER              -> SetMapping(el, pv, el.sc.pol)

NewSet(sc, pv) == SetEl(New(sc), pv)

-----------------------------------------------------------------------------
(* set_flat(): pairs are <<key, text>>, key None ("~") for "this element"     *)

RECURSIVE SetFlat(_, _, _), SetFlatFields(_, _, _, _)

FlatScalar(el, pairs) ==
  LET hit == SelectSeq(pairs, LAMBDA p : p[1] = el.sc.name \/ (el.sc.name = None /\ p[1] = ""))
  IN IF hit = <<>> THEN el ELSE SetEl(el, TextPV(hit[1][2])).e

(* parse "<prefix><digits>(<sep>rest|end)": [ok, idx, rest] *)
ListKey(sc, key, sep) ==
  LET prefix == IF sc.name = None THEN "" ELSE sc.name \o sep
      no == [ok |-> FALSE, idx |-> "", rest |-> None]
  IN IF key = None \/ ~StartsWith(key, prefix) THEN no
     ELSE LET r == Drop(key, Len(prefix))
              n == Span(r, Digits)
              tail == Drop(r, n)
          IN IF n = 0 THEN no
             ELSE IF tail = "" THEN [ok |-> TRUE, idx |-> StripZeros(Take(r, n)), rest |-> None]
             ELSE IF StartsWith(tail, sep)
             THEN [ok |-> TRUE, idx |-> StripZeros(Take(r, n)),
                   rest |-> LET x == Drop(tail, Len(sep)) IN IF x = "" THEN None ELSE x]
             ELSE no

RECURSIVE InsertNum(_, _)
InsertNum(s, x) ==      \* into an ascending sequence of distinct numerals
  IF s = <<>> THEN <<x>>
  ELSE IF s[1] = x THEN s
  ELSE IF NumLess(x, s[1]) THEN <<x>> \o s
  ELSE <<s[1]>> \o InsertNum(Tail(s), x)
RECURSIVE SortNums(_)
SortNums(s) == IF s = <<>> THEN <<>> ELSE InsertNum(SortNums(Tail(s)), s[1])

FlatList(el, pairs, sep) ==
  LET sc == el.sc
      live == SelectSeq(pairs, LAMBDA p : ~(sc.prune /\ p[2] = ""))
      parsed == [i \in 1..Len(live) |-> LET k == ListKey(sc, live[i][1], sep)
                                        IN [ok |-> k.ok, idx |-> k.idx, rest |-> k.rest, v |-> live[i][2]]]
      hits == SelectSeq(parsed, LAMBDA p : p.ok)
      idxs == SortNums([i \in 1..Len(hits) |-> hits[i].idx])
      sub(n) == LET h == SelectSeq(hits, LAMBDA p : p.idx = n)
                IN [i \in 1..Len(h) |-> <<h[i].rest, h[i].v>>]
      fill(n) == SetFlat(New(Member(sc)), sub(n), sep)
      count == LET m == idxs[Len(idxs)] IN
               IF Len(m) > 6 THEN sc.max ELSE Min2(NatOf(m) + 1, sc.max)
  IN IF hits = <<>> THEN SeqEl(sc, <<>>)
     ELSE IF sc.prune
     THEN SeqEl(sc, [i \in 1..Min2(Len(idxs), sc.max) |-> fill(idxs[i])])
     ELSE SeqEl(sc, [i \in 1..count |-> fill(ToString(i - 1))])

(* the part of key that names a member of an Array, "?" when it does not      *)
ArrayKey(sc, key, sep) ==
  IF sc.name = None THEN (IF key = "" THEN None ELSE key)
  ELSE IF key = None THEN "?"
  ELSE IF key = sc.name THEN None
  ELSE IF StartsWith(key, sc.name \o sep)
  THEN LET r == Drop(key, Len(sc.name \o sep)) IN IF r = "" THEN None ELSE r
  ELSE "?"
FlatArray(el, pairs, sep) ==
  LET sc == el.sc
      hit == SelectSeq(pairs, LAMBDA p : /\ ArrayKey(sc, p[1], sep) = Member(sc).name
                                         /\ ~(sc.prune /\ p[2] = ""))
  IN SeqEl(sc, [i \in 1..Len(hit) |-> NewSet(Member(sc), TextPV(hit[i][2])).e])

SetFlatFields(el, ps, sep, i) ==
  IF i > Len(el.sc.kids) THEN el
  ELSE LET f == el.sc.kids[i]
           mine == SelectSeq(ps, LAMBDA p : p[1] # None /\ (p[1] = f.name \/ StartsWith(p[1], f.name \o sep)))
       IN IF mine = <<>> THEN SetFlatFields(el, ps, sep, i + 1)
          ELSE LET base == IF HasKey(el, f.name) THEN Kid(el, f.name) ELSE New(f)
               IN SetFlatFields(PutKey(el, f.name, SetFlat(base, mine, sep)), ps, sep, i + 1)

FlatMapping(el, pairs, sep) ==
  LET nm == el.sc.name
      prefix == nm \o sep
      mine == IF nm = None THEN pairs
              ELSE LET h == SelectSeq(pairs, LAMBDA p : p[1] # None /\ StartsWith(p[1], prefix))
                   IN [i \in 1..Len(h) |-> <<Drop(h[i][1], Len(prefix)), h[i][2]>>]
  IN SetFlatFields(el, mine, sep, 1)

SetFlat(el, pairs, sep) ==
  CASE IsScalar(el) \/ el.sc.k = "joined" -> FlatScalar(el, pairs)
    [] el.sc.k = "list"  -> FlatList(el, pairs, sep)
    [] IsSeq(el)         -> FlatArray(el, pairs, sep)
    [] OTHER             -> FlatMapping(el, pairs, sep)

-----------------------------------------------------------------------------
(* set_default() *)

(* the default in effect; t = "none" when there is none *)
DefaultOf(sc) ==
  CASE sc.dk \in {"val", "fac"} -> sc.dv
    [] sc.dk = "facname" -> TextPV((IF sc.name = None THEN "" ELSE sc.name) \o "!")
    [] OTHER -> NonePV
HasDefault(sc) == sc.dk \in {"val", "fac", "facname"} /\ DefaultOf(sc).t # "n"

RECURSIVE SetDefault(_)
AppendAll(el, pvs) == SeqEl(el.sc, [i \in 1..Len(pvs) |-> NewSet(Member(el.sc), pvs[i]).e])
SetDefault(el) ==
  LET sc == el.sc
      d == DefaultOf(sc)
  IN CASE IsScalar(el) -> IF sc.dk = "unspec" THEN el ELSE SetEl(el, d).e
       [] sc.k = "list" ->
            IF ~HasDefault(sc) THEN el
            ELSE IF d.t = "i"
            THEN SeqEl(sc, [i \in 1..SmallInt(d.s) |-> SetDefault(New(Member(sc)))])
            ELSE SetEl(el, d).e
       [] sc.k = "joined" -> IF ~HasDefault(sc) THEN el ELSE SetEl(el, d).e
       [] IsSeq(el) -> IF ~HasDefault(sc) THEN el ELSE AppendAll(el, Items(d).l)
       [] sc.k = "sdict" ->
            IF HasDefault(sc) THEN SetEl(el, d).e
            ELSE LET b == New(sc) IN [b EXCEPT !.kids = [i \in 1..Len(b.kids) |-> SetDefault(b.kids[i])]]
       [] OTHER ->
            IF HasDefault(sc) THEN SetEl(el, d).e
            ELSE [el EXCEPT !.kids = [i \in 1..Len(el.kids) |-> SetDefault(el.kids[i])]]

-----------------------------------------------------------------------------
(* Sequence operations: Python list semantics over the members                *)

(* Python index -> 1-based position, 0 when out of range *)
Pos(n, i) == LET j == IF i < 0 THEN i + n ELSE i IN IF j >= 0 /\ j < n THEN j + 1 ELSE 0
ClampInsert(n, i) == LET j == IF i < 0 THEN Max2(i + n, 0) ELSE Min2(i, n) IN j + 1

(* slice [a:b:c]; a, b are <<present, int>>, c # 0: the selected positions    *)
Bound(n, x, lo, hi) == LET j == IF x < 0 THEN x + n ELSE x IN Min2(Max2(j, lo), hi)
SliceStart(n, a, c) == IF ~a[1] THEN (IF c > 0 THEN 0 ELSE n - 1)
                       ELSE IF c > 0 THEN Bound(n, a[2], 0, n) ELSE Bound(n, a[2], -1, n - 1)
SliceStop(n, b, c)  == IF ~b[1] THEN (IF c > 0 THEN n ELSE -1)
                       ELSE IF c > 0 THEN Bound(n, b[2], 0, n) ELSE Bound(n, b[2], -1, n - 1)
RECURSIVE Steps(_, _, _)
Steps(i, stop, c) == IF (c > 0 /\ i >= stop) \/ (c < 0 /\ i <= stop) THEN <<>>
                     ELSE <<i + 1>> \o Steps(i + c, stop, c)
SlicePos(n, a, b, c) == Steps(SliceStart(n, a, c), SliceStop(n, b, c), c)

DropPositions(s, ps) ==
  LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin Range2(ps))
  IN [i \in 1..Len(keep) |-> s[keep[i]]]
(* positions are 1-based; plain slices splice, extended ones replace pointwise *)
AssignSlice(s, a, b, c, new) ==
  LET n == Len(s)
      st == SliceStart(n, a, 1)
      en == Max2(SliceStop(n, b, 1), st)
      ps == SlicePos(n, a, b, c)
  IN IF c = 1 THEN [ok |-> TRUE, s |-> SubSeq(s, 1, st) \o new \o SubSeq(s, en + 1, n)]
     ELSE IF Len(ps) # Len(new) THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE, s |-> [i \in 1..n |-> LET j == IndexIn(ps, i) IN IF j = 0 THEN s[i] ELSE new[j]]]

(* stable sort by integer keys *)
RECURSIVE InsertKeyed(_, _, _), SortKeyed(_, _)
InsertKeyed(s, x, rev) ==            \* x goes before equal keys (it came earlier)
  IF s = <<>> THEN <<x>>
  ELSE IF (IF rev THEN s[1].n > x.n ELSE s[1].n < x.n)
  THEN <<s[1]>> \o InsertKeyed(Tail(s), x, rev)
  ELSE <<x>> \o s
SortKeyed(s, rev) == IF s = <<>> THEN <<>> ELSE InsertKeyed(SortKeyed(Tail(s), rev), s[1], rev)
SortKey(el, by) ==
  CASE by = "len" -> Len(TextOf(el))
    [] by = "int" -> IF StartsWith(el.v, "i:") THEN SmallInt(Drop(el.v, 2)) ELSE 0
    [] OTHER      -> LET f == Kid(el, by) IN IF StartsWith(f.v, "i:") THEN SmallInt(Drop(f.v, 2)) ELSE 0
SortedBy(kids, by, rev) ==
  LET s == SortKeyed([i \in 1..Len(kids) |-> [n |-> SortKey(kids[i], by), e |-> kids[i]]], rev)
  IN [i \in 1..Len(s) |-> s[i].e]

Made(el, pv) == NewSet(Member(el.sc), pv).e
MadeAll(el, pvs) == [i \in 1..Len(pvs) |-> Made(el, pvs[i])]
FirstSame(kids, x) == LET m == {i \in 1..Len(kids) : Same(kids[i], x)}
                      IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
With(el, kids) == [el EXCEPT !.kids = kids]

SeqOp(el, op) ==
  LET n == Len(el.kids)
      k == el.kids
      p == Pos(n, op.i)
      \* a raw value the member type refuses with an error changes nothing
      refused == IF op.o \in {"append", "insert"} THEN NewSet(Member(el.sc), op.pv).r ELSE ""
  IN CASE IsExc(refused)   -> Res(el, refused)
       [] op.o = "append"  -> Res(With(el, Append(k, Made(el, op.pv))), "ok")
       [] op.o \in {"extend", "iadd"} -> Res(With(el, k \o MadeAll(el, op.pv.l)), "ok")
       [] op.o = "insert"  -> Res(With(el, InsertAtIdx(k, ClampInsert(n, op.i), Made(el, op.pv))), "ok")
       [] op.o = "setitem" -> IF p = 0 THEN Res(el, "exc:IndexError")
                              ELSE Res(With(el, [k EXCEPT ![p] = Made(el, op.pv)]), "ok")
       [] op.o = "setslice" ->
            LET a == AssignSlice(k, op.a, op.b, op.c[2], MadeAll(el, op.pv.l))
            IN IF a.ok THEN Res(With(el, a.s), "ok") ELSE Res(el, "exc:ValueError")
       [] op.o = "delitem" -> IF p = 0 THEN Res(el, "exc:IndexError")
                              ELSE Res(With(el, RemoveAtIdx(k, p)), "ok")
       [] op.o = "delslice" -> Res(With(el, DropPositions(k, SlicePos(n, op.a, op.b, op.c[2]))), "ok")
       [] op.o = "pop"     -> IF p = 0 THEN Res(el, "exc:IndexError")
                              ELSE Res(With(el, RemoveAtIdx(k, p)), "ok:" \o ValueOf(k[p]))
       [] op.o = "remove"  -> LET j == FirstSame(k, Made(el, op.pv)) IN
                              IF j = 0 THEN Res(el, "exc:ValueError")
                              ELSE Res(With(el, RemoveAtIdx(k, j)), "ok")
       [] op.o = "reverse" -> Res(With(el, Rev(k)), "ok")
       [] op.o = "sort"    -> Res(With(el, SortedBy(k, op.by, op.rev)), "ok")
       [] op.o = "clear"   -> Res(With(el, <<>>), "ok")
       [] op.o = "index"   -> LET j == FirstSame(k, Made(el, op.pv)) IN
                              Res(el, IF j = 0 THEN "exc:ValueError" ELSE "ok:" \o ToString(j - 1))
       [] op.o = "count"   -> Res(el, "ok:" \o ToString(Cardinality({i \in 1..n : Same(k[i], Made(el, op.pv))})))
       [] op.o = "contains"-> Res(el, "ok:" \o Flag(FirstSame(k, Made(el, op.pv)) # 0))
       [] op.o = "getitem" -> Res(el, IF p = 0 THEN "exc:IndexError" ELSE "ok:" \o ValueOf(k[p]))
       [] op.o = "getslice"-> LET ps == SlicePos(n, op.a, op.b, op.c[2])
                              IN Res(el, "ok:[" \o Join([i \in 1..Len(ps) |-> ValueOf(k[ps[i]])], ",") \o "]")
       \* MultiValue's scalar view writes through to the first member
       [] op.o = "setvalue" -> LET kk == IF k = <<>> THEN <<Made(el, NonePV)>> ELSE k
                               IN Res(With(el, [kk EXCEPT ![1].v = "s:" \o op.pv.s]), "ok")
       [] op.o = "setu"     -> LET kk == IF k = <<>> THEN <<Made(el, NonePV)>> ELSE k
                               IN Res(With(el, [kk EXCEPT ![1].u = op.pv.s]), "ok")
       [] op.o = "bool"     -> Res(el, "ok:" \o Flag(IF el.sc.k = "joined" THEN TextOf(el) # "" ELSE k # <<>>))

-----------------------------------------------------------------------------
(* Mapping operations *)

Fixed(el) == el.sc.k # "sdict"
(* el[key] = value *)
PutItem(el, key, pv) ==
  IF HasKey(el, key)
  THEN LET s == SetEl(Kid(el, key), pv) IN Res(PutKey(el, key, s.e), IF IsExc(s.r) THEN s.r ELSE "ok")
  ELSE IF Fixed(el) \/ ~Knows(el.sc, key) THEN Res(el, "exc:TypeError")
  ELSE LET s == NewSet(el.sc.kids[FieldIdx(el.sc, key)], pv)
       IN IF IsExc(s.r) THEN Res(el, s.r) ELSE Res(PutKey(el, key, s.e), "ok")
RECURSIVE PutItems(_, _, _)
PutItems(el, ps, i) ==
  IF i > Len(ps) THEN Res(el, "ok")
  ELSE LET s == PutItem(el, ps[i][1], ps[i][2])
       IN IF IsExc(s.r) THEN s ELSE PutItems(s.e, ps, i + 1)

(* may the field be taken away? *)
Removable(el, key) == el.sc.min # "required" \/ el.sc.kids[FieldIdx(el.sc, key)].opt

MapOp(el, op) ==
  LET key == op.key
      has == HasKey(el, key)
  IN CASE op.o = "mset"    -> SetMapping(el, op.pv, IF op.pol = "" THEN el.sc.pol ELSE op.pol)
       [] op.o = "setitem" -> PutItem(el, key, op.pv)
       [] op.o = "update"  -> PutItems(el, Pairs(op.pv).l, 1)
       [] op.o = "delitem" ->
            IF Fixed(el) THEN Res(el, IF has THEN "exc:TypeError" ELSE "exc:KeyError")
            ELSE IF ~Knows(el.sc, key) THEN Res(el, "exc:TypeError")
            ELSE IF ~Removable(el, key) THEN Res(el, "exc:TypeError")
            ELSE IF ~has THEN Res(el, "exc:KeyError") ELSE Res(DropKey(el, key), "ok")
       [] op.o = "pop" ->
            IF ~has THEN Res(el, "exc:KeyError")
            ELSE IF Fixed(el) \/ ~Removable(el, key) THEN Res(el, "exc:TypeError")
            ELSE Res(DropKey(el, key), "ok:" \o ValueOf(Kid(el, key)))
       [] op.o = "popitem" -> Res(el, "exc:any")
       [] op.o = "clear"   -> IF Fixed(el) THEN Res(el, "exc:TypeError") ELSE Res(New(el.sc), "ok")
       [] op.o = "setdefault" ->
            IF Fixed(el) \/ ~Knows(el.sc, key) THEN Res(el, "exc:TypeError")
            ELSE IF has /\ ~IsEmpty(Kid(el, key)) THEN Res(el, "ok:" \o ValueOf(Kid(el, key)))
            ELSE LET base == IF has THEN Kid(el, key) ELSE New(el.sc.kids[FieldIdx(el.sc, key)])
                     s == SetEl(base, op.pv)
                 IN Res(PutKey(el, key, s.e), "ok")
       [] op.o = "get"     -> IF has THEN Res(el, "ok:" \o ValueOf(Kid(el, key))) ELSE Res(el, "exc:KeyError")
       [] op.o = "getitem" -> IF has THEN Res(el, "ok:" \o ValueOf(Kid(el, key))) ELSE Res(el, "exc:KeyError")
       [] op.o = "contains"-> Res(el, "ok:" \o Flag(has))
       [] op.o = "may"     -> Res(el, "ok:" \o Flag(Knows(el.sc, key)))

-----------------------------------------------------------------------------
(* Operations on a whole tree: op.at is a sequence of keys / indexes as text  *)

ChildPos(el, step) == IF IsMap(el) THEN IndexIn(el.keys, step)
                      ELSE LET i == NatOf(step) + 1 IN IF i <= Len(el.kids) THEN i ELSE 0
RECURSIVE GetAt(_, _), PutAt(_, _, _)
GetAt(el, at) == IF at = <<>> THEN el ELSE GetAt(el.kids[ChildPos(el, at[1])], Tail(at))
PutAt(el, at, x) == IF at = <<>> THEN x
                    ELSE LET i == ChildPos(el, at[1])
                         IN [el EXCEPT !.kids[i] = PutAt(el.kids[i], Tail(at), x)]

(* a Python value as canonical text; mappings have no order and are left out *)
RECURSIVE PvCanon(_), Ordered(_)
Ordered(pv) == pv.t # "d" /\ \A i \in 1..Len(pv.l) : Ordered(pv.l[i])
PvCanon(pv) ==
  CASE pv.t = "n" -> NoVal
    [] pv.t = "s" -> "s:" \o pv.s
    [] pv.t = "i" -> "i:" \o pv.s
    [] pv.t = "b" -> IF pv.tr THEN "b:1" ELSE "b:0"
    [] pv.t = "l" -> "[" \o Join([i \in 1..Len(pv.l) |-> PvCanon(pv.l[i])], ",") \o "]"
    [] OTHER      -> pv.t \o ":" \o pv.full
DefaultResult(el) ==
  IF el.sc.dk = "unspec" THEN "ok:unspec"
  ELSE IF Ordered(DefaultOf(el.sc)) THEN "ok:" \o PvCanon(DefaultOf(el.sc)) ELSE "ok"

LocalOp(el, op) ==
  CASE op.o = "set"      -> SetEl(el, op.pv)
    [] op.o = "set_flat" -> Res(SetFlat(el, op.pairs, op.sep), "ok")
    [] op.o = "set_default" -> Res(SetDefault(el), "ok")
    [] op.o = "noop"     -> Res(el, "ok")
    [] op.o = "fresh"    -> Res(New(el.sc), "ok")
    [] op.o = "from_defaults" -> Res(SetDefault(New(el.sc)), "ok")
    [] op.o = "from_flat" -> Res(SetFlat(New(el.sc), op.pairs, op.sep), "ok")
    [] op.o = "default_value" -> Res(el, DefaultResult(el))
    \* elements are never equal to anything that is not an element, nor hashable
    [] op.o = "compare_other" -> Res(el, "ok:FT")
    [] op.o = "hash"     -> Res(el, "exc:TypeError")
    \* the verdict on == follows from what the two elements show (see TreeTrace)
    [] op.o = "compare"  -> Res(el, "ok")
    [] IsMap(el)         -> MapOp(el, op)
    [] OTHER             -> SeqOp(el, op)

Step(root, op) ==
  LET r == LocalOp(GetAt(root, op.at), op) IN Res(PutAt(root, op.at, r.e), r.r)

-----------------------------------------------------------------------------
(* What a tree looks like from outside *)

RECURSIVE ReprBody(_, _, _)
ReprBody(s, q, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i) IN
       (CASE c = "\\" -> "\\\\" [] c = q -> "\\" \o q [] c = "\n" -> "\\n"
          [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] OTHER -> c)
       \o ReprBody(s, q, i + 1)
Repr(s) == LET q == IF Contains(s, "'") /\ ~Contains(s, "\"") THEN "\"" ELSE "'"
           IN "u" \o q \o ReprBody(s, q, 1) \o q

(* whether the element's text is embedded bare (containers) or as a literal   *)
BareText(el) == ~IsScalar(el)
-----------------------------------------------------------------------------
(* Which elements does flatten() / set_flat() restore?                        *)

RECURSIVE Contributes(_), Restorable(_), WhollyKept(_)
(* some pair survives the journey for this element *)
Contributes(el) ==
  CASE IsScalar(el) \/ el.sc.k = "joined" -> TRUE
    [] IsSeq(el) -> \E i \in 1..Len(el.kids) : Contributes(el.kids[i])
    [] OTHER     -> \E i \in 1..Len(el.kids) : Contributes(el.kids[i])
RECURSIVE HasText(_)
HasText(el) ==
  CASE IsScalar(el) \/ el.sc.k = "joined" -> TextOf(el) # ""
    [] el.sc.k = "date3" -> \E i \in 1..3 : el.kids[i].u # ""
    [] OTHER -> \E i \in 1..Len(el.kids) : HasText(el.kids[i])
(* a pruning list forgets the pairs without text below it: nothing may depend *)
(* on them                                                                    *)
WhollyKept(el) ==
  /\ HasText(el)
  /\ CASE IsScalar(el) \/ el.sc.k = "joined" -> TRUE
       [] el.sc.k = "list" -> el.sc.prune \/ \A i \in 1..Len(el.kids) : WhollyKept(el.kids[i])
       [] IsSeq(el) -> \A i \in 1..Len(el.kids) : el.kids[i].u # ""
       [] el.sc.k = "sdict" -> \A i \in 1..Len(el.kids) : WhollyKept(el.kids[i])
       [] OTHER -> \A i \in 1..Len(el.kids) :
                      \/ WhollyKept(el.kids[i])
                      \/ SetFlat(New(el.kids[i].sc), <<>>, "_") = el.kids[i]
Restorable(el) ==
  CASE IsScalar(el) -> LET a == Adapt(el.sc, TextPV(el.u)) IN a.u = el.u /\ (el.u = "" \/ a.v = el.v)
    [] el.sc.k = "joined" ->
         LET s == SetEl(New(el.sc), TextPV(TextOf(el))).e IN s.kids = el.kids
    [] el.sc.k = "list" ->
         /\ Len(el.kids) <= el.sc.max
         /\ \A i \in 1..Len(el.kids) : /\ Restorable(el.kids[i])
                                       /\ IF el.sc.prune THEN WhollyKept(el.kids[i]) ELSE Contributes(el.kids[i])
    [] IsSeq(el) -> \A i \in 1..Len(el.kids) : Restorable(el.kids[i]) /\ (el.sc.prune => el.kids[i].u # "")
    [] el.sc.k = "sdict" -> \A i \in 1..Len(el.kids) : Restorable(el.kids[i]) /\ Contributes(el.kids[i])
    [] OTHER -> \A i \in 1..Len(el.kids) : Restorable(el.kids[i])
=============================================================================
