------------------------------ MODULE TreeTrace ------------------------------
(* Validates recorded histories of element-tree operations against Elements.  *)
(* Every record is one public operation on the real library with its result   *)
(* and the complete projection of the tree afterwards; the specification      *)
(* steps its own tree and names every clause in which the two differ.         *)
EXTENDS Elements, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, tree, dead, nbad
vars == <<l, tree, dead, nbad>>

NoTree == [none |-> TRUE]

(* breadth-first descendants of node id in the observed structure *)
RECURSIVE Bfs(_, _, _)
Bfs(nodes, queue, fuel) ==
  IF queue = <<>> \/ fuel = 0 THEN <<>>
  ELSE <<queue[1]>> \o Bfs(nodes, Tail(queue) \o nodes[queue[1] + 1].kids, fuel - 1)

Diff(clause, id, want, got) ==
  IF want = got THEN <<>> ELSE <<[c |-> clause, node |-> id, want |-> ToString(want), got |-> ToString(got)]>>
Must(clause, id, cond, got) ==
  IF cond THEN <<>> ELSE <<[c |-> clause, node |-> id, want |-> "", got |-> ToString(got)]>>

(* text of a container from its members' observed texts in observed order *)
MemberText(kid, nd) == IF BareText(kid) THEN nd.u ELSE Repr(nd.u)
WantText(el, nd, nodes) ==
  CASE el.sc.k \in {"list", "array"} ->
         "[" \o Join([i \in 1..Len(el.kids) |-> MemberText(el.kids[i], nodes[nd.kids[i] + 1])], ", ") \o "]"
    [] el.sc.k \in {"dict", "sdict"} ->
         "{" \o Join([i \in 1..Len(nd.kn) |->
                        Repr(nd.kn[i]) \o ": " \o MemberText(Kid(el, nd.kn[i]), nodes[nd.kids[i] + 1])], ", ") \o "}"
    [] OTHER -> TextOf(el)

(* a mapping's text lists its fields in some order *)
TextIn(el, nd, nodes) ==
  IF el.sc.k \notin {"dict", "sdict"} \/ Len(nd.kn) < 2 THEN WantText(el, nd, nodes) = nd.u
  ELSE \/ WantText(el, nd, nodes) = nd.u
       \/ \E p \in Permutations(1..Len(nd.kn)) :
            nd.u = WantText(el, [nd EXCEPT !.kn = [i \in 1..Len(nd.kn) |-> nd.kn[p[i]]],
                                           !.kids = [i \in 1..Len(nd.kn) |-> nd.kids[p[i]]]], nodes)

(* value and emptiness as composed from the observed members alone *)
ComposedValue(el, nd, nodes) ==
  CASE el.sc.k \in {"list", "array"} ->
         "[" \o Join([i \in 1..Len(nd.kids) |-> nodes[nd.kids[i] + 1].val], ",") \o "]"
    [] el.sc.k = "mv" -> IF nd.kids = <<>> THEN NoVal ELSE nodes[nd.kids[1] + 1].val
    [] el.sc.k = "joined" -> "s:" \o Join([i \in 1..Len(nd.kids) |-> nodes[nd.kids[i] + 1].u], el.sc.jsep)
    [] el.sc.k = "date3" ->
         ComposeDate([kids |-> [i \in 1..3 |-> [v |-> nodes[nd.kids[IndexIn(nd.kn, el.sc.kids[i].name)] + 1].val]]]).v
    [] el.sc.k \in {"dict", "sdict"} ->
         LET order == SelectSeq(el.sc.kids, LAMBDA f : f.name \in Range2(nd.kn))
         IN "{" \o Join([i \in 1..Len(order) |-> order[i].name \o "="
                           \o nodes[nd.kids[IndexIn(nd.kn, order[i].name)] + 1].val], ",") \o "}"
    [] OTHER -> nd.val
ComposedEmpty(el, nd, nodes) ==
  CASE el.sc.k = "str" -> nd.val \in {NoVal, "s:"} /\ nd.u = ""
    [] IsScalar(el)    -> nd.val = NoVal /\ nd.u = ""
    [] el.sc.k = "dict" -> FALSE
    [] el.sc.k = "date3" -> \A i \in 1..Len(nd.kids) : nodes[nd.kids[i] + 1].emp = "T"
    [] OTHER           -> nd.kids = <<>>

NamePart(el) == IF el.sc.name = None THEN <<>> ELSE <<el.sc.name>>

RECURSIVE Match(_, _, _, _), MatchKids(_, _, _, _, _)
(* ctx: [flat, fq, anc, sep] *)
Shape(el, nd) ==
  IF IsMap(el) THEN Len(nd.kn) = Len(el.keys) /\ Range2(nd.kn) = Range2(el.keys) /\ Len(nd.kids) = Len(el.keys)
  ELSE Len(nd.kids) = Len(el.kids)
Match(el, id, nodes, ctx) ==
  LET nd == nodes[id + 1]
      fq == IF ctx.anc = <<>> THEN "." ELSE "." \o Join(ctx.fq, ".")
      shape == Shape(el, nd)
  IN Diff("value", id, ValueOf(el), nd.val)
     \o (IF shape /\ ~TextIn(el, nd, nodes) THEN Diff("text", id, WantText(el, nd, nodes), nd.u) ELSE <<>>)
     \o Diff("optional", id, Flag(el.sc.opt), nd.opt)
     \o Diff("is_empty", id, Flag(IsEmpty(el)), nd.emp)
     \o (IF shape THEN Diff("composed value", id, ComposedValue(el, nd, nodes), nd.val) ELSE <<>>)
     \o Diff("composed emptiness", id, Flag(ComposedEmpty(el, nd, nodes)), nd.emp)
     \o Diff("flattened_name", id, Join(ctx.flat, ctx.sep), nd.flat)
     \o Diff("fq_name", id, fq, nd.fq)
     \o Diff("el", id, <<id, id>>, nd.el)
     \o Diff("parents", id, ctx.anc, nd.anc)
     \o Diff("root", id, 0, nd.root)
     \o Diff("path", id, Rev(ctx.anc) \o <<id>>, nd.path)
     \o Diff("all_children", id, Bfs(nodes, nd.kids, Len(nodes) + 1), nd.all)
     \o (IF shape THEN <<>> ELSE <<[c |-> "members", node |-> id, want |-> ValueOf(el), got |-> ToString(nd.kn)]>>)
     \o Diff("indexing", id, nd.kids, nd.idx)
     \o Diff("iteration", id, nd.kids, nd.it)
     \o (IF shape THEN MatchKids(el, id, nodes, ctx, 1) ELSE <<>>)
MatchKids(el, id, nodes, ctx, i) ==
  LET nd == nodes[id + 1] IN
  IF i > Len(nd.kids) THEN <<>>
  ELSE LET kid == IF IsMap(el) THEN Kid(el, nd.kn[i]) ELSE el.kids[i]
           pos == ToString(i - 1)
           kidctx == [flat |-> ctx.flat \o (IF el.sc.k = "list" THEN <<pos>> ELSE <<>>) \o NamePart(kid),
                      fq |-> ctx.fq \o <<IF IsMap(el) THEN nd.kn[i] ELSE pos>>,
                      anc |-> <<id>> \o ctx.anc, sep |-> ctx.sep]
       IN (IF nd.kids[i] > id THEN Match(kid, nd.kids[i], nodes, kidctx)
           ELSE <<[c |-> "aliased member", node |-> nd.kids[i], want |-> "", got |-> ""]>>)
          \o MatchKids(el, id, nodes, ctx, i + 1)

(* flatten(): breadth-first, one pair per flattenable node, nothing below a   *)
(* JoinedString                                                               *)
RECURSIVE FlatWalk(_, _)
Flattenable(k) == k \in ScalarKinds \cup {"joined", "date3"}
FlatWalk(nodes, queue) ==
  IF queue = <<>> THEN <<>>
  ELSE LET nd == nodes[queue[1] + 1]
       IN (IF Flattenable(nd.k) THEN << <<nd.flat, nd.u>> >> ELSE <<>>)
          \o FlatWalk(nodes, Tail(queue) \o (IF nd.k = "joined" THEN <<>> ELSE nd.kids))

Observe(el, r) ==
  LET m == Match(el, 0, r.nodes, [flat |-> NamePart(el), fq |-> <<>>, anc |-> <<>>, sep |-> r.sep])
      want == FlatWalk(r.nodes, <<0>>)
      names == {want[i][1] : i \in 1..Len(want)}
      \* one pair per flattenable element; pairs of one name in member order
      same == /\ Len(want) = Len(r.flatten)
              /\ \A n \in names : SelectSeq(want, LAMBDA p : p[1] = n) = SelectSeq(r.flatten, LAMBDA p : p[1] = n)
  IN m \o (IF m = <<>> /\ ~same THEN Diff("flatten", 0, want, r.flatten) ELSE <<>>)

ResultOk(want, got) == want = got \/ (want = "exc:any" /\ IsExc(got))
                       \* a result the specification leaves open
                       \/ (want = "ok" /\ StartsWith(got, "ok"))

(* round trip: same texts everywhere, and same values where texts are not empty *)
RECURSIVE Alike(_, _)
Alike(a, b) ==
  /\ a.u = b.u /\ (IsScalar(a) /\ a.u # "" => a.v = b.v)
  /\ a.keys = b.keys /\ Len(a.kids) = Len(b.kids)
  /\ \A i \in 1..Len(a.kids) : Alike(a.kids[i], b.kids[i])

(* == compares the values and texts the two elements show; True equals 1      *)
RECURSIVE IdAt(_, _, _)
IdAt(nodes, id, at) ==
  IF at = <<>> THEN id
  ELSE LET nd == nodes[id + 1] IN
       IdAt(nodes, IF nd.kn # <<>> THEN nd.kids[IndexIn(nd.kn, at[1])] ELSE nd.kids[NatOf(at[1]) + 1], Tail(at))
PyVal(v) == Join(SplitBy(v, "b:"), "i:")
CompareWant(r) ==
  LET a == r.nodes[IdAt(r.nodes, 0, r.op.at) + 1]
      b == r.nodes[IdAt(r.nodes, 0, r.op.at2) + 1]
      eq == PyVal(a.val) = PyVal(b.val) /\ a.u = b.u
  IN "ok:" \o Flag(eq) \o Flag(~eq)

Init == l = 1 /\ tree = NoTree /\ dead = FALSE /\ nbad = 0

Report(r, fails) == PrintT("FAIL " \o ToJson([line |-> l, h |-> r.h, op |-> r.op.o, fails |-> fails]))

Consume(r) ==
  LET start == r.op.o = "start"
      cur == IF start THEN New(r.schema) ELSE tree
      skip == ~start /\ dead
      step == IF start THEN Res(cur, "ok")
              ELSE IF r.op.o = "roundtrip" THEN Res(SetFlat(New(tree.sc), r.op.pairs, r.op.sep), "ok")
              ELSE Step(cur, r.op)
      fails == (IF ResultOk(step.r, r.res) THEN <<>>
                ELSE <<[c |-> "result", node |-> 0, want |-> step.r, got |-> r.res]>>)
               \o Observe(step.e, r)
               \o (IF r.op.o = "compare" THEN Diff("equality", 0, CompareWant(r), r.res) ELSE <<>>)
               \o (IF r.op.o = "roundtrip" /\ Restorable(tree)
                   THEN Must("round trip", 0, Alike(tree, step.e), ValueOf(step.e)) ELSE <<>>)
      \* an exception out of set()/update() leaves the members half assigned
      over == IsExc(step.r) /\ r.op.o \in {"set", "mset", "update"}
      fails2 == IF over THEN (IF ResultOk(step.r, r.res) THEN <<>>
                              ELSE <<[c |-> "result", node |-> 0, want |-> step.r, got |-> r.res]>>)
                ELSE fails
      bad == ~skip /\ fails2 # <<>>
  IN /\ IF bad THEN Report(r, fails2) ELSE TRUE
     /\ tree' = IF skip \/ bad \/ r.op.o = "roundtrip" THEN tree ELSE step.e
     /\ dead' = IF start THEN bad ELSE (dead \/ bad \/ over)
     /\ nbad' = nbad + (IF bad THEN 1 ELSE 0)

Next == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
