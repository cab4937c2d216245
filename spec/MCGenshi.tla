------------------------------ MODULE MCGenshi ------------------------------
(* Templates of the flatland directives, written tag by tag: every one with   *)
(* at most Size pieces, rendered by the specification.                        *)
EXTENDS Genshi, Json

CONSTANTS Size, LeafSet, OpenSet
VARIABLES open, size
vars == <<open, size>>
(* open: the nodes opened and not yet closed, with the kids they have so far; *)
(* the template itself is the first                                           *)

P(s) == << [t |-> "s", s |-> s] >>
Tag(t, as, ctl, b) == [k |-> "tag", tag |-> t, attrs |-> as, ns |-> <<>>, ctl |-> ctl, bind |-> IF b > 0 THEN "el" ELSE IF b = 0 THEN "" ELSE "no",
                       b |-> IF b > 0 THEN b ELSE 0, kids |-> <<>>]
Txt(t, s) == [k |-> "text", t |-> t, s |-> s]
With(sets) == [k |-> "with", sets |-> sets, kids |-> <<>>]
Leaf == [
  input   |-> Tag("input", <<>>, <<>>, 1),
  forced  |-> Tag("input", << <<"tabindex", P("9")>> >>, << <<"auto-tabindex", P("on")>> >>, 0),
  check   |-> Tag("input", << <<"type", P("checkbox")>>, <<"value", P("v")>> >>, << <<"auto-domid", P("on")>> >>, 1),
  plain   |-> Tag("input", << <<"title", <<[t |-> "n", s |-> ""]>> >>, <<"id", P("i")>> >>, <<>>, 0),
  none    |-> Tag("textarea", <<>>, <<>>, -1),
  area    |-> Tag("textarea", <<>>, <<>>, 2),
  label   |-> [Tag("label", <<>>, << <<"auto-for", P("on")>> >>, 1) EXCEPT !.kids = <<Txt("h", "<b>&amp;</b>"), Txt("s", "<")>>],
  option  |-> [Tag("option", <<>>, <<>>, 0) EXCEPT !.kids = <<Txt("s", " v")>>],
  optval  |-> Tag("option", << <<"value", P("v")>> >>, << <<"auto-value", P("off")>> >>, 0),
  setidx  |-> [With(<< <<"auto_tabindex", "on">>, <<"tabindex", 5>> >>) EXCEPT !.k = "set"],
  setoff  |-> [With(<< <<"auto_name", "off">> >>) EXCEPT !.k = "set"],
  setfil  |-> [With(<< <<"auto_filter", "on">>, <<"filters", <<"clear">> >> >>) EXCEPT !.k = "set"],
  text    |-> Txt("e", "<&"),
  call    |-> Txt("d", "") ]
Opening == [
  withidx |-> With(<< <<"auto_tabindex", "1">>, <<"tabindex", 2>> >>),
  withoff |-> With(<< <<"auto_value", "off">> >>),
  withfil |-> With(<< <<"auto_filter", "on">>, <<"filters", <<"mark">> >> >>),
  twice   |-> [k |-> "for", over |-> << [x |-> "p", b |-> 1], [x |-> "q", b |-> 2] >>, style |-> "attr", kids |-> <<>>],
  when    |-> [k |-> "if", cond |-> TRUE, style |-> "el", kids |-> <<>>],
  never   |-> [k |-> "if", cond |-> FALSE, style |-> "attr", kids |-> <<>>],
  select  |-> Tag("select", <<>>, <<>>, 1),
  button  |-> Tag("button", <<>>, <<>>, 2),
  div     |-> Tag("div", <<>>, <<>>, 0) ]

One(name, u) == [t |-> "one", name |-> name, u |-> u, true |-> "", mk |-> "str", ms |-> <<>>]
Binds == << One("nm", "v"), One("n&\"<", "x<&\">'") >>
BindsD == << [k |-> "str", name |-> "nm", v |-> "v"], [k |-> "str", name |-> "n&\"<", v |-> "x<&\">'"] >>

Last == open[Len(open)]
Add(node) == open' = [open EXCEPT ![Len(open)].kids = Append(@, node)]
Inside(k) == \E i \in 1..Len(open) : open[i].n.k = "tag" /\ open[i].n.tag = k
Write == \E l \in LeafSet :
         /\ (l \in {"option", "optval"}) <=> Inside("select")
         /\ size < Size /\ size' = size + 1 /\ Add(Leaf[l])
Start == \E o \in OpenSet :
         /\ ~(o \in {"select", "button", "div"} /\ Inside("select"))
         /\ size < Size /\ size' = size + 1 /\ open' = Append(open, [n |-> Opening[o], kids |-> <<>>])
Close == /\ Len(open) > 1 /\ UNCHANGED size
         /\ open' = [SubSeq(open, 1, Len(open) - 1) EXCEPT ![Len(open) - 1].kids = Append(@, [Last.n EXCEPT !.kids = Last.kids])]

Init == open = <<[n |-> [k |-> "template"], kids |-> <<>>]>> /\ size = 0
Next == Write \/ Start \/ Close
Spec == Init /\ [][Next]_vars

Underscored(s) == Translate(s, [c \in {"-"} |-> "_"])
Done == size = Size /\ Len(open) = 1
RECURSIVE Named2(_)
Named2(ns) == [i \in 1..Len(ns) |->
   LET n == IF ns[i].k = "tag" THEN [ns[i] EXCEPT !.ctl = [j \in 1..Len(@) |-> <<Underscored(@[j][1]), @[j][2]>>]] ELSE ns[i]
   IN IF "kids" \in DOMAIN n THEN [n EXCEPT !.kids = Named2(@)] ELSE n]
Nodes == Named2(open[1].kids)
Out(ns) == Result(ns, Binds)

(* scopes end where they end                                                  *)
Even == Done => Len(Out(Nodes).frames) = 1
(* directives and controls are not seen in what comes out                     *)
Clean == Done => LET o == Out(Nodes).out IN \A i \in 1..Len(o) : o[i][1] = "s" => \A a \in o[i][3] : a[1] \notin Autos \cup {"bind"}
(* every tag that is opened is closed, in order                               *)
RECURSIVE Balanced(_, _)
Balanced(o, st) == IF o = <<>> THEN st = <<>>
                   ELSE CASE o[1][1] = "s" -> Balanced(Tail(o), Append(st, o[1][2]))
                          [] o[1][1] = "e" -> st # <<>> /\ st[Len(st)] = o[1][2] /\ Balanced(Tail(o), SubSeq(st, 1, Len(st) - 1))
                          [] OTHER -> Balanced(Tail(o), st)
Nested == Done => Balanced(Out(Nodes).out, <<>>)
(* a form:with leaves no trace: what follows is as if it had not been there   *)
NoTrace == Done => \A i \in 1..Len(Nodes) : Nodes[i].k = "with" =>
  LET before == SubSeq(Nodes, 1, i - 1) after == SubSeq(Nodes, i + 1, Len(Nodes))
      a == Render(before, <<BaseFrame>>, 0, Alone, Binds) w == Render(<<Nodes[i]>>, a.frames, 0, Alone, Binds)
      without == Render(before \o after, <<BaseFrame>>, 0, Alone, Binds)
  IN Render(Nodes, <<BaseFrame>>, 0, Alone, Binds).out = a.out \o w.out \o SubSeq(without.out, Len(a.out) + 1, Len(without.out))
(* numbering goes by the order of tags in the output, without a gap           *)
Digit == [c \in Digits |-> Find("0123456789", c) - 1]
Numbers(o) == LET q == SelectSeq(o, LAMBDA e : e[1] = "s" /\ \E a \in e[3] : a[1] = "tabindex" /\ Len(a[2]) = 1)
              IN [i \in 1..Len(q) |-> Digit[(CHOOSE a \in q[i][3] : a[1] = "tabindex")[2]]]
Numbered == (Done /\ Nodes # <<>> /\ Nodes[1].k = "with" /\ Len(Nodes) = 1 /\ Nodes[1].sets[1][1] = "auto_tabindex"
             /\ \A i \in 1..Len(Nodes[1].kids) : Nodes[1].kids[i].k \notin {"with", "set"} /\ ("kids" \in DOMAIN Nodes[1].kids[i] => \A j \in 1..Len(Nodes[1].kids[i].kids) : Nodes[1].kids[i].kids[j].k \notin {"with", "set"}))
             => LET q == Numbers(Out(Nodes).out) IN Size <= 3 => \A i \in 1..Len(q) : q[i] = 1 + i \/ q[i] = 9
(* without directives, the template is its own output                         *)
RECURSIVE Written(_)
Written(ns) ==
  IF ns = <<>> THEN <<>>
  ELSE LET n == ns[1]
           here == CASE n.k = "text" -> Emits(n, Alone)
                     [] n.k = "if" -> IF n.cond THEN Written(n.kids) ELSE <<>>
                     [] n.k = "for" -> FlatSeq([i \in 1..Len(n.over) |-> Written(n.kids)])
                     [] OTHER -> << <<"s", n.tag, Pairs(Given(n.attrs, Alone))>> >> \o Written(n.kids) \o << <<"e", n.tag>> >>
       IN here \o Written(Tail(ns))
AsWritten == Done /\ Bare(Nodes) => Out(Nodes).out = Joined(Written(Nodes))
Emitted == Done => PrintT("RUN " \o ToJson([nodes |-> open[1].kids, binds |-> BindsD, swap |-> Len(open[1].kids) % 2 = 0]))
=============================================================================
