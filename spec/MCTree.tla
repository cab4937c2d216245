------------------------------- MODULE MCTree -------------------------------
(* Model checks the element semantics over small schemas and a complete menu  *)
(* of operations, and emits every explored transition (with a shortest        *)
(* history leading to it) for replay into the real library.                   *)
EXTENDS Elements, Json, IOUtils

CONSTANTS Depth, Group

Base == [k |-> "str", name |-> None, kids |-> <<>>, strip |-> TRUE, opt |-> FALSE, prune |-> TRUE,
         max |-> 1024, min |-> "none", pol |-> "subset", dk |-> "none", dv |-> NonePV, signed |-> TRUE, w |-> 0,
         true |-> "1", false |-> "", tsyn |-> <<"on", "true", "True", "1">>,
         fsyn |-> <<"off", "false", "False", "0", "">>, vals |-> <<>>, jsep |-> ",", jre |-> FALSE]
StrF(n)      == [Base EXCEPT !.name = n]
IntF(n)      == [Base EXCEPT !.k = "int", !.name = n]
Opt(s)      == [s EXCEPT !.opt = TRUE]
Cont(k, n, kids) == [Base EXCEPT !.k = k, !.name = n, !.kids = kids]
Keep(s, m)  == [s EXCEPT !.prune = FALSE, !.max = m]
Deft(s, pv) == [s EXCEPT !.dk = "val", !.dv = pv]
Part(n, w)  == [Base EXCEPT !.k = "int", !.name = n, !.w = w]

I(n)   == [t |-> "i", s |-> ToString(n), tr |-> n # 0, ks |-> <<>>, l |-> <<>>, full |-> ""]
T(x)   == [t |-> "s", s |-> x, tr |-> x # "", ks |-> <<>>, l |-> <<>>, full |-> ""]
Nil    == [t |-> "n", s |-> "None", tr |-> FALSE, ks |-> <<>>, l |-> <<>>, full |-> ""]
L(xs)  == [t |-> "l", s |-> "?", tr |-> xs # <<>>, ks |-> <<>>, l |-> xs, full |-> ""]
D(ks, vs) == [t |-> "d", s |-> "?", tr |-> ks # <<>>, ks |-> ks, l |-> vs, full |-> ""]

Schemas ==
  CASE Group = "list" -> <<Cont("list", "l", <<IntF(None)>>),
                           Cont("list", "l", <<Cont("dict", None, <<StrF("a"), IntF("b")>>)>>),
                           Keep(Cont("list", None, <<StrF("x")>>), 2)>>
    [] Group = "seq" -> <<Cont("array", "m", <<IntF(None)>>), Cont("mv", "m", <<StrF("n")>>),
                          Cont("joined", "j", <<StrF(None)>>),
                          [Cont("joined", "j", <<IntF(None)>>) EXCEPT !.prune = FALSE, !.jsep = "; "]>>
    [] Group = "map" -> <<Cont("dict", "d", <<StrF("a"), IntF("ab")>>),
                          Cont("sdict", "d", <<StrF("a"), Opt(IntF("b"))>>),
                          [Cont("sdict", None, <<StrF("a"), Opt(IntF("b"))>>) EXCEPT !.min = "required"],
                          [Cont("dict", "d", <<StrF("a"), IntF("b")>>) EXCEPT !.pol = "strict"],
                          [Cont("dict", "d", <<StrF("a"), IntF("b")>>) EXCEPT !.pol = "duck"],
                          Cont("date3", "w", <<Part("year", 4), Part("month", 2), Part("day", 2)>>)>>
    [] Group = "nest" -> <<Cont("dict", "f", <<StrF("a"), Cont("list", "l", <<Cont("dict", None, <<IntF("x")>>)>>)>>),
                           Cont("dict", None, <<Deft(StrF("a"), T("d")), Deft(Cont("list", "l", <<Deft(StrF(None), T("e"))>>), I(2))>>),
                           Cont("list", "o", <<Cont("list", None, <<IntF("i")>>)>>),
                           Cont("sdict", "s", <<Cont("array", "m", <<StrF(None)>>), Cont("dict", "a", <<StrF("b")>>)>>)>>
    [] OTHER -> <<>>

NoA == <<FALSE, 0>>
B(i) == <<TRUE, i>>
SliceArgs == {<<NoA, NoA, 1>>, <<B(1), NoA, 1>>, <<NoA, B(1), 1>>, <<B(-1), NoA, 1>>, <<NoA, NoA, 2>>, <<NoA, NoA, -1>>}
OpI(o, at, i)      == [o |-> o, at |-> at, i |-> i]
OpV(o, at, pv)     == [o |-> o, at |-> at, pv |-> pv]
OpIV(o, at, i, pv) == [o |-> o, at |-> at, i |-> i, pv |-> pv]
OpK(o, at, key)    == [o |-> o, at |-> at, key |-> key]
OpKV(o, at, k, pv) == [o |-> o, at |-> at, key |-> k, pv |-> pv]
Sl(o, at, s)       == [o |-> o, at |-> at, a |-> s[1], b |-> s[2], c |-> <<s[3] # 1, s[3]>>]
SlV(o, at, s, pv)  == [o |-> o, at |-> at, a |-> s[1], b |-> s[2], c |-> <<s[3] # 1, s[3]>>, pv |-> pv]
Flat(pairs)        == [o |-> "set_flat", at |-> <<>>, sep |-> "_", pairs |-> pairs]
Plain0(o)          == [o |-> o, at |-> <<>>]

(* values a member / field of this schema is offered *)
Offers(sc) ==
  CASE sc.k = "int" -> {I(1), T(" 2 "), T("x")}
    [] sc.k = "str" -> {T("p"), T(""), I(7)}
    [] sc.k = "dict" -> {D(<<sc.kids[1].name>>, <<T("3")>>), D(<<>>, <<>>)}
    [] sc.k = "sdict" -> {D(<<sc.kids[1].name>>, <<T("3")>>), D(<<>>, <<>>)}
    [] sc.k \in {"list", "array", "mv"} -> {L(<<>>), L(<<T("1"), T("2")>>)}
    [] OTHER -> {T("a,b"), T("")}

SeqMenu(sc, at) ==
  LET m == sc.kids[1]
      vs == Offers(m)
      v1 == CHOOSE v \in vs : TRUE
  IN {OpV("append", at, v) : v \in vs}
     \cup {OpIV("insert", at, i, v1) : i \in {0, -1, 5}}
     \cup {OpIV("setitem", at, i, v) : i \in {0, -1, 2}, v \in vs}
     \cup {OpI("delitem", at, i) : i \in {0, -1, 2}}
     \cup {OpI("pop", at, i) : i \in {0, -1}}
     \cup {Sl("delslice", at, s) : s \in SliceArgs}
     \cup {SlV("setslice", at, s, L(<<v1>>)) : s \in SliceArgs}
     \cup {SlV("setslice", at, s, L(<<v1, v1>>)) : s \in {<<B(1), B(1), 1>>, <<NoA, NoA, -1>>}}
     \cup {Sl("getslice", at, s) : s \in SliceArgs}
     \cup {OpV("extend", at, L(<<>>)), OpV("iadd", at, L(<<v1>>)), [o |-> "reverse", at |-> at], [o |-> "clear", at |-> at]}
     \cup {OpV(o, at, v1) : o \in {"remove", "index", "count", "contains"}}
     \cup (IF m.k \in {"int", "str"} THEN {[o |-> "sort", at |-> at, by |-> "len", rev |-> r] : r \in BOOLEAN} ELSE {})
     \cup {OpV("set", at, L(<<v1, v1>>)), OpV("set", at, L(<<>>))}
MapMenu(sc, at) ==
  LET names == {sc.kids[i].name : i \in 1..Len(sc.kids)}
      vs(n) == Offers(sc.kids[FieldIdx(sc, n)])
      one(n) == CHOOSE v \in vs(n) : TRUE
      n1 == sc.kids[1].name
      n2 == sc.kids[Len(sc.kids)].name
  IN {OpKV("setitem", at, n, v) : n \in names, v \in UNION {vs(x) : x \in names} }
     \cup {OpKV("setitem", at, "zz", T("1"))}
     \cup {OpKV("setdefault", at, n, one(n)) : n \in names} \cup {OpKV("setdefault", at, "zz", T("1"))}
     \cup {OpK(o, at, n) : o \in {"delitem", "pop", "contains", "get", "may"}, n \in names \cup {"zz"}}
     \cup {[o |-> "popitem", at |-> at], [o |-> "clear", at |-> at]}
     \cup {OpV("update", at, D(<<n1>>, <<one(n1)>>)), OpV("update", at, D(<<"zz">>, <<T("1")>>))}
     \cup {[o |-> "mset", at |-> at, pol |-> p, pv |-> v] :
             p \in {"", "strict", "subset", "duck"},
             v \in {D(<<n1>>, <<one(n1)>>), D(<<>>, <<>>), D(<<"zz">>, <<T("1")>>),
                    D([i \in 1..Len(sc.kids) |-> sc.kids[i].name], [i \in 1..Len(sc.kids) |-> one(sc.kids[i].name)])}}
(* scalars only accept values that set() takes without error in this menu     *)
Fits(sc, op) ==
  ~(op.o \in {"setitem", "setdefault"} /\ "key" \in DOMAIN op /\ Knows(sc, op.key)
    /\ op.pv \notin Offers(sc.kids[FieldIdx(sc, op.key)]))
DateMenu ==
  {OpV("set", <<>>, v) : v \in {T("2020-02-29"), T("2021-02-29"), T(""), Nil}}
  \cup {OpKV("setitem", <<>>, "year", v) : v \in {T("2021"), T("2020"), T("x"), Nil}}
  \cup {OpKV("setitem", <<>>, "day", v) : v \in {T("28"), T("29"), I(0)}}
  \cup {OpKV("setitem", <<>>, "month", v) : v \in {T("2"), T("13")}}
  \cup {Flat(<< <<"w_year", "2020">>, <<"w_day", "1">>, <<"w_month", "02">> >>), Flat(<< <<"w", "2020-01-01">> >>)}
  \cup {OpK("delitem", <<>>, "year"), OpK("pop", <<>>, "day"), Plain0("set_default")}

(* flat pairs offered to the root of each group                               *)
Pre(sc, x) == IF sc.name = None THEN x ELSE sc.name \o "_" \o x
FlatMenu(sc) ==
  CASE sc.k = "list" ->
         LET mem == sc.kids[1]
             leaf(i) == Pre(sc, i) \o (CASE mem.k = "dict" -> "_" \o mem.kids[1].name
                                         [] mem.k = "list" -> "_0_i"
                                         [] OTHER -> IF mem.name = None THEN "" ELSE "_" \o mem.name)
         IN {Flat(<<>>), Flat(<< <<leaf("1"), "5">>, <<leaf("0"), "4">> >>), Flat(<< <<leaf("2"), "">>, <<leaf("9"), "9">> >>),
             Flat(<< <<leaf("x"), "5">>, <<Pre(sc, "0") \o "x", "4">>, <<Pre(sc, "-1"), "1">> >>),
             Flat(<< <<leaf("01"), "5">>, <<leaf("1"), "6">> >>)}
    [] sc.k \in {"array", "mv"} ->
         LET k == IF sc.kids[1].name = None THEN sc.name ELSE sc.name \o "_" \o sc.kids[1].name
         IN {Flat(<< <<k, "1">>, <<k, "">>, <<k, "2">> >>), Flat(<< <<k \o "x", "1">> >>), Flat(<<>>)}
    [] sc.k = "joined" -> {Flat(<< <<"j", "1,2">>, <<"j", "3">> >>), Flat(<< <<"j", "">> >>), Flat(<< <<"k", "1">> >>)}
    [] OTHER ->
         LET n1 == sc.kids[1].name
             n2 == sc.kids[Len(sc.kids)].name
         IN {Flat(<< <<Pre(sc, n1), "1">> >>), Flat(<< <<Pre(sc, n2), "2">>, <<Pre(sc, n1), "">> >>), Flat(<<>>),
             Flat(<< <<Pre(sc, n1 \o "_0"), "1">>, <<Pre(sc, n1 \o "x"), "1">>, <<n1, "3">> >>),
             Flat(<< <<Pre(sc, "l_0_x"), "8">>, <<Pre(sc, "l_1"), "9">>, <<Pre(sc, "m"), "q">>, <<Pre(sc, "a_b"), "w">> >>)}

Menu(sc, el) ==
  IF sc.k = "date3" THEN DateMenu
  ELSE FlatMenu(sc) \cup {Plain0("set_default")}
       \cup (IF IsSeq(el) THEN {o \in SeqMenu(sc, <<>>) :
                                  ~(sc.k = "joined" /\ o.o \in {"set"}) }
             ELSE {o \in MapMenu(sc, <<>>) : Fits(sc, o)})
       \cup (IF sc.k = "joined" THEN {OpV("set", <<>>, T("a" \o sc.jsep \o "b")), OpV("set", <<>>, T("")), OpV("set", <<>>, L(<<T("1"), T(""), I(3)>>)),
                                      OpV("set", <<>>, T(sc.jsep))} ELSE {})
       \cup (IF sc.k = "mv" THEN {OpV("setvalue", <<>>, T("q")), OpV("setu", <<>>, T("")), Plain0("bool")} ELSE {})
       \* one level further down
       \cup (IF Group # "nest" THEN {}
             ELSE UNION {LET kid == el.kids[i]
                             at == <<IF IsMap(el) THEN el.keys[i] ELSE ToString(i - 1)>>
                         IN IF IsSeq(kid)
                            THEN {o \in SeqMenu(kid.sc, at) : o.o \in {"append", "insert", "delitem", "setitem", "reverse", "setslice"} }
                            ELSE {} : i \in 1..Len(el.kids)})

VARIABLES n, el, hist
vars == <<n, el, hist>>
View == <<n, el, Len(hist)>>

RECURSIVE Size(_), SizeSum(_, _)
SizeSum(ks, i) == IF i > Len(ks) THEN 0 ELSE Size(ks[i]) + SizeSum(ks, i + 1)
Size(e) == 1 + SizeSum(e.kids, 1)

Nested(op) == op.o \in {"set", "mset", "update"} \/ ("pv" \in DOMAIN op /\ op.pv.t \in {"l", "d"})
Init == n \in 1..Len(Schemas) /\ el = New(Schemas[n]) /\ hist = <<>>
Emit(op) == PrintT("RUN " \o ToJson([schema |-> Schemas[n], sep |-> "_", ops |-> Append(hist, op)]))
Do(op) == LET s == Step(el, op) IN
          /\ el' = s.e /\ n' = n /\ hist' = Append(hist, op)
          /\ Emit(op)
          \* set()/update() of containers that raise leave the members half assigned
          /\ ~(IsExc(s.r) /\ Nested(op))
Next == /\ Len(hist) < Depth /\ Size(el) <= 12
        /\ \E op \in Menu(Schemas[n], el) : Do(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* invariants of the design *)

RECURSIVE WellFormed(_)
WellFormed(e) ==
  /\ CASE e.sc.k = "dict"  -> e.keys = [i \in 1..Len(e.sc.kids) |-> e.sc.kids[i].name]
       [] e.sc.k = "date3" -> Len(e.keys) = 3
       [] e.sc.k = "sdict" -> /\ Range2(e.keys) \subseteq {e.sc.kids[i].name : i \in 1..Len(e.sc.kids)}
                              /\ e.sc.min = "required" =>
                                   \A i \in 1..Len(e.sc.kids) : ~e.sc.kids[i].opt => HasKey(e, e.sc.kids[i].name)
       [] OTHER -> e.keys = <<>>
  /\ IsMap(e) => Len(e.keys) = Len(e.kids) /\ \A i \in 1..Len(e.keys) : e.kids[i].sc.name = e.keys[i]
  /\ IsSeq(e) => \A i \in 1..Len(e.kids) : e.kids[i].sc = Member(e.sc)
  /\ \A i \in 1..Len(e.kids) : WellFormed(e.kids[i])
Shape == WellFormed(el)

(* flatten() of the model, depth first (order of pairs is irrelevant here)    *)
RECURSIVE Pairs2(_, _, _), PairsKids(_, _, _, _)
Pairs2(e, path, sep) ==
  (IF IsScalar(e) \/ e.sc.k \in {"joined", "date3"} THEN << <<Join(path, sep), TextOf(e)>> >> ELSE <<>>)
  \o (IF e.sc.k = "joined" THEN <<>> ELSE PairsKids(e, path, sep, 1))
PairsKids(e, path, sep, i) ==
  IF i > Len(e.kids) THEN <<>>
  ELSE Pairs2(e.kids[i], path \o (IF e.sc.k = "list" THEN <<ToString(i - 1)>> ELSE <<>>)
                              \o (IF e.kids[i].sc.name = None THEN <<>> ELSE <<e.kids[i].sc.name>>), sep)
       \o PairsKids(e, path, sep, i + 1)
Flatten(e, sep) == Pairs2(e, IF e.sc.name = None THEN <<>> ELSE <<e.sc.name>>, sep)
RECURSIVE Alike(_, _)
Alike(a, b) ==
  /\ a.u = b.u /\ (IsScalar(a) /\ a.u # "" => a.v = b.v)
  /\ a.keys = b.keys /\ Len(a.kids) = Len(b.kids)
  /\ \A i \in 1..Len(a.kids) : Alike(a.kids[i], b.kids[i])
RoundTrip ==
  Restorable(el) => \A sep \in {"_", "__", "."} : Alike(el, SetFlat(New(el.sc), Flatten(el, sep), sep))
(* whatever came in, what set_flat() built flattens to something it rebuilds  *)
Stable ==
  LET once == SetFlat(New(el.sc), Flatten(el, "_"), "_")
      twice == SetFlat(New(el.sc), Flatten(once, "_"), "_")
  IN Restorable(once) => Alike(once, twice)
Bounded == \A op \in FlatMenu(el.sc) : el.sc.k = "list" => Len(SetFlat(el, op.pairs, "_").kids) <= el.sc.max
(* defaults do not depend on what was there before, mappings without a default excepted *)
DefaultsIdempotent == SetDefault(SetDefault(el)) = SetDefault(el)
(* setting the scalar text again changes nothing *)
SetAgain ==
  \A i \in 1..Len(el.kids) :
    IsScalar(el.kids[i]) => LET s == SetScalar(el.kids[i], TextPV(el.kids[i].u)) IN s.e.u = el.kids[i].u
(* list algebra *)
SeqLaws ==
  IsSeq(el) /\ el.sc.k # "x" =>
    LET k == el.kids
        v == CHOOSE x \in Offers(Member(el.sc)) : TRUE
        do(e, op) == SeqOp(e, op).e
        all == <<NoA, NoA, 1>>
    IN /\ do(do(el, Plain0("reverse")), Plain0("reverse")) = el
       /\ do(do(el, OpIV("insert", <<>>, 0, v)), OpI("delitem", <<>>, 0)) = el
       /\ do(do(el, OpV("append", <<>>, v)), OpI("pop", <<>>, -1)) = el
       /\ do(el, OpV("extend", <<>>, L(<<v, v>>))) = do(do(el, OpV("append", <<>>, v)), OpV("append", <<>>, v))
       /\ do(el, OpV("iadd", <<>>, L(<<v>>))) = do(el, OpV("append", <<>>, v))
       /\ do(el, Sl("delslice", <<>>, all)) = do(el, Plain0("clear"))
       /\ do(el, SlV("setslice", <<>>, <<B(Len(k)), NoA, 1>>, L(<<v>>))) = do(el, OpV("append", <<>>, v))
       /\ k # <<>> => SeqOp(el, OpI("pop", <<>>, -1)).r = SeqOp(el, OpI("getitem", <<>>, -1)).r
       /\ SeqOp(do(el, OpV("append", <<>>, v)), OpV("contains", <<>>, v)).r = "ok:T"
       /\ IsExc(SeqOp(el, OpI("delitem", <<>>, Len(k))).r) /\ IsExc(SeqOp(el, OpI("delitem", <<>>, 0 - Len(k) - 1)).r)
MapLaws ==
  el.sc.k \in {"dict", "sdict"} =>
    \A op \in {o \in MapMenu(el.sc, <<>>) : Fits(el.sc, o)} :
      LET s == MapOp(el, op) IN
      /\ op.o \notin {"mset", "update"} /\ IsExc(s.r) /\ ~Nested(op) => s.e = el
      /\ op.o = "setitem" /\ ~IsExc(s.r) => \A i \in 1..Len(el.keys) : el.keys[i] # op.key => Kid(s.e, el.keys[i]) = el.kids[i]
      /\ el.sc.k = "dict" => s.e.keys = el.keys
=============================================================================
