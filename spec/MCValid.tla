------------------------------ MODULE MCValid ------------------------------
(* validate() on small trees with every combination of scripted results:      *)
(* the order and the outcome rules, stated independently of the machine.      *)
EXTENDS Validation, Json

CONSTANTS Shapes, Down0s, Up0s, Inners, Leafs   \* shape ids; result lists (as texts) for root descent, root up, inner, leaves
Lists(ts) == {IF t = "" THEN <<>> ELSE SplitBy(t, ",") : t \in ts}
Down0 == Lists(Down0s)
Up0 == Lists(Up0s)
Inner == Lists(Inners)
Leaf == Lists(Leafs)

Nd(k, kids, emp, opt, d, v) == [k |-> k, kids |-> kids, emp |-> emp, opt |-> opt, d |-> d, v |-> v, late |-> 0,
                                dn |-> CASE k = "scalar" -> "v" [] k = "plain" -> "" [] OTHER -> "d",
                                up |-> IF k \in {"scalar", "plain"} THEN "" ELSE "v"]
(* 1: map(scalar, scalar)   2: map(seq(scalar, scalar), scalar)   3: seq()   4: sparse(map(scalar))  *)
Trees(sh) ==
  CASE sh = 1 -> {<<Nd("map", <<2, 3>>, FALSE, FALSE, a, b), Nd("scalar", <<>>, e, o, <<>>, c), Nd("scalar", <<>>, FALSE, FALSE, <<>>, d)>> :
                    a \in Down0, b \in Up0, c \in Leaf, d \in Leaf, e \in BOOLEAN, o \in BOOLEAN}
    [] sh = 2 -> {<<Nd("map", <<2, 3>>, FALSE, FALSE, a, b), Nd("seq", <<4, 5>>, FALSE, FALSE, f, g), Nd("scalar", <<>>, FALSE, FALSE, <<>>, c),
                    Nd("scalar", <<>>, FALSE, FALSE, <<>>, d), Nd("scalar", <<>>, FALSE, FALSE, <<>>, <<>>)>> :
                    a \in Inner, b \in Inner, f \in Inner, g \in Inner, c \in Leaf, d \in Leaf}
    [] sh = 3 -> {<<Nd("seq", <<>>, FALSE, o, a, b)>> : a \in Down0, b \in Up0, o \in BOOLEAN}
    [] OTHER -> {<<Nd("sparse", <<2>>, FALSE, o, a, b), Nd("map", <<3>>, FALSE, FALSE, f, g), Nd("scalar", <<>>, TRUE, TRUE, <<>>, c)>> :
                    a \in Inner, b \in Inner, f \in Inner, g \in Inner, c \in Leaf, o \in BOOLEAN}

VARIABLES s, start, deep
vars == <<s, start, deep>>
Init == /\ deep \in BOOLEAN
        /\ \E sh \in Shapes : start \in Trees(sh)
        /\ s = Begin(start, [i \in 1..Len(start) |-> "U"], 1, deep)
Next == /\ ~Stopped(s) /\ s' = Step(s) /\ UNCHANGED <<start, deep>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == s.phase = "done"
Emitted == Stopped(s) => PrintT("RUN " \o ToJson([nodes |-> start, deep |-> deep]))
Ends == <>Stopped(s)

(* --- the order, from the events alone ---                                   *)
Dpos(i) == IF i \in Range2(s.order) THEN IndexIn(s.order, i) ELSE 0
Upper(i) == CHOOSE j \in 1..Len(start) : i \in Range2(start[j].kids)
RECURSIVE Depth(_)
Depth(i) == IF i = 1 THEN 0 ELSE 1 + Depth(Upper(i))
OnceBreadthFirst ==
  \A p \in 1..Len(s.order) : \A q \in 1..Len(s.order) : p < q =>
     /\ s.order[p] # s.order[q]
     /\ Depth(s.order[p]) <= Depth(s.order[q])
     /\ (s.order[p] # 1 /\ s.order[q] # 1 /\ Upper(s.order[p]) = Upper(s.order[q]))
          => IndexIn(start[Upper(s.order[p])].kids, s.order[p]) < IndexIn(start[Upper(s.order[q])].kids, s.order[q])
UpReversesDown == s.phase = "up" => \A q \in 1..Len(s.queue) : s.queue[q] = s.order[Len(s.queue) + 1 - q]
(* what a list of results says, read declaratively: the first that does not continue *)
FirstStop(rs) == IF \E j \in 1..Len(rs) : ~Goes(rs[j]) THEN CHOOSE j \in 1..Len(rs) : ~Goes(rs[j]) /\ \A i \in 1..(j-1) : Goes(rs[i]) ELSE 0
Verdict(rs) == IF FirstStop(rs) = 0 THEN "T" ELSE Outcome(rs[FirstStop(rs)])
Pass(o) == o \in {"T", "SkipAll"}
Emp(i) == IF start[i].k = "scalar" THEN start[i].emp ELSE start[i].k \in {"seq", "sparse"} /\ start[i].kids = <<>>
WantDown(i) == CASE start[i].k = "scalar" -> IF Emp(i) /\ start[i].opt THEN "T" ELSE IF start[i].v = <<>> THEN (IF Emp(i) THEN "F" ELSE "T") ELSE Verdict(start[i].v)
                 [] start[i].d = <<>> -> "T"
                 [] OTHER -> IF Emp(i) /\ start[i].opt THEN "T" ELSE Verdict(start[i].d)
WantUp(i) == IF start[i].k = "scalar" \/ (Emp(i) /\ start[i].opt) THEN "T" ELSE IF start[i].v = <<>> THEN (IF Emp(i) THEN "F" ELSE "T") ELSE Verdict(start[i].v)
(* an element is reached iff none above it cut its branch *)
RECURSIVE Cut(_)
Cut(i) == IF i = 1 THEN FALSE
          ELSE Cut(Upper(i)) \/ (start[Upper(i)].d # <<>> /\ WantDown(Upper(i)) \in {"SkipAll", "SkipAllFalse"})
Visited == {i \in 1..Len(start) : (deep \/ i = 1) /\ ~Cut(i)}
NoRaise == \A i \in 1..Len(start) : "raise" \notin Range2(start[i].d \o start[i].v)
Reached == Done /\ NoRaise => Range2(s.order) = Visited
Flags == Done /\ NoRaise => \A i \in 1..Len(start) :
  s.flag[i] = IF i \notin Visited THEN "U"
              ELSE IF Pass(WantDown(i)) /\ Pass(WantUp(i)) THEN "T" ELSE "F"
Overall == Done /\ NoRaise => (s.res <=> \A i \in Visited : Pass(WantDown(i)) /\ Pass(WantUp(i)))
CallsOf(i, w) == SelectSeq(s.evs, LAMBDA e : e[1] = "call" /\ e[2] = i /\ e[3] = w)
Stops == Done /\ NoRaise => \A i \in 1..Len(start) : \A w \in {"d", "v"} :
  LET rs == IF w = "d" THEN start[i].d ELSE start[i].v
      n == IF FirstStop(rs) = 0 THEN Len(rs) ELSE FirstStop(rs)
  IN Len(CallsOf(i, w)) = IF i \notin Visited \/ (Emp(i) /\ start[i].opt) THEN 0 ELSE n
OneSignalPerCall == Done => \A p \in 1..Len(s.evs) : s.evs[p][1] = "call" =>
  p < Len(s.evs) /\ s.evs[p + 1][1] = "sig" /\ SubSeq(s.evs[p + 1], 2, 4) = SubSeq(s.evs[p], 2, 4)
AllValidIs == Done => (AllValid(s.nodes, s.flag, 1) <=> "F" \notin Range2(s.flag))
=============================================================================
