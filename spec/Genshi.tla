------------------------------- MODULE Genshi -------------------------------
(* Genshi templates with the flatland directives (C24): the same rules as the *)
(* generator (Markup), applied to the tags of a tree, with settings scoped by *)
(* the tree.                                                                  *)
(*                                                                            *)
(* A template is a sequence of nodes:                                         *)
(*   text  [t, s]                 t as for parts, below; "d": a py:def call   *)
(*   tag   [tag, attrs, ns, ctl, bind, b, kids]                               *)
(*   with, set [sets, kids]       form:with, form:set                         *)
(*   if    [cond, kids]    for [over, kids]    note [s]                       *)
(* attrs and ctl (the form:auto-* controls) are <<key, parts>>; a part is     *)
(* [t, s]: "s" text, "e" an expression of text, "l" of a list of texts, "h"   *)
(* of markup, "n" of None, "x" the loop variable.  bind: "" none, "el" the    *)
(* b-th element (0: the one of the loop), "no" an empty form:bind.            *)
(* The output is a sequence of events <<"s", tag, attributes>>, <<"t", text>>, *)
(* <<"e", tag>>, <<"c", comment>>.                                            *)
EXTENDS Markup

SetOf(q) == {q[i] : i \in 1..Len(q)}
There(ps) == SelectSeq(ps, LAMBDA p : p.t # "n")
Said(p, env) == IF p.t = "x" THEN env.x ELSE p.s
Spelled(ps, env) == Concat([i \in 1..Len(There(ps)) |-> Said(There(ps)[i], env)])

(* the attributes there are: those that are None are left out                 *)
Given(as, env) == LET q == SelectSeq(as, LAMBDA a : There(a[2]) # <<>>)
                  IN [i \in 1..Len(q) |-> [k |-> q[i][1], t |-> "s", s |-> Spelled(q[i][2], env)]]

(* markup as events                                                           *)
RECURSIVE Parsed(_)
Parsed(s) ==
  IF s = "" THEN <<>>
  ELSE IF Ch(s, 1) = "<"
       THEN LET e == Find(s, ">") rest == Parsed(Drop(s, e)) IN
            IF Ch(s, 2) = "/" THEN << <<"e", SubSeq(s, 3, e - 1)>> >> \o rest ELSE << <<"s", SubSeq(s, 2, e - 1), {}>> >> \o rest
       ELSE LET e == Find(s, "<") n == IF e = 0 THEN Len(s) ELSE e - 1
            IN << <<"t", Unescape(Take(s, n))>> >> \o Parsed(Drop(s, n))
Lumpy == << <<"s", "b", {}>>, <<"t", "lumpy.">>, <<"e", "b">> >>
Emits(n, env) == CASE n.t = "n" -> <<>> [] n.t = "d" -> Lumpy [] n.t = "h" -> Parsed(n.s) [] OTHER -> << <<"t", Said(n, env)>> >>

(* what is inside of a tag, as contents                                       *)
ContentsOf(kids, env) ==
  IF \E i \in 1..Len(kids) : kids[i].k # "text" \/ kids[i].t = "d" THEN [t |-> "x", s |-> ""]
  ELSE LET q == There(kids) IN
       IF q = <<>> THEN [t |-> "n", s |-> ""]
       ELSE IF \E i \in 1..Len(q) : q[i].t = "h"
       THEN [t |-> "h", s |-> Concat([i \in 1..Len(q) |-> IF q[i].t = "h" THEN q[i].s ELSE Escaped(Said(q[i], env))])]
       ELSE [t |-> "s", s |-> Spelled(q, env)]

NoBind == [t |-> "none", name |-> "", u |-> "", true |-> "", mk |-> "str", ms |-> <<>>]
Pairs(as) == {<<as[i].k, as[i].s>> : i \in 1..Len(as)}

RECURSIVE Render(_, _, _, _, _)
RECURSIVE Times(_, _, _, _, _, _)
(* ns in the settings frames (the innermost last); inh: the bind options      *)
(* inherit from a select around them, or 0; env: the loop's variables         *)
Render(ns, frames, inh, env, binds) ==
  IF ns = <<>> THEN [out |-> <<>>, frames |-> frames, bad |-> FALSE]
  ELSE
  LET n == ns[1]
      whole(kids, f, i) == Render(kids, f, i, env, binds)
      here ==
        CASE n.k = "text" -> [out |-> Emits(n, env), frames |-> frames, bad |-> FALSE]
          [] n.k = "note" -> [out |-> << <<"c", n.s>> >>, frames |-> frames, bad |-> FALSE]
          [] n.k = "if" -> IF n.cond THEN whole(n.kids, frames, inh) ELSE [out |-> <<>>, frames |-> frames, bad |-> FALSE]
          [] n.k = "for" -> Times(n.over, n.kids, frames, inh, env, binds)
          [] n.k = "with" ->
               IF ~Known(n.sets) THEN [out |-> <<>>, frames |-> frames, bad |-> TRUE]
               ELSE LET r == whole(n.kids, Append(frames, Set(Top(frames), n.sets)), inh)
                    IN [r EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
          [] n.k = "set" ->
               IF ~Known(n.sets) THEN [out |-> <<>>, frames |-> frames, bad |-> TRUE]
               ELSE whole(n.kids, WithTop(frames, Set(Top(frames), n.sets)), inh)
          [] OTHER ->
               LET own == Given(n.attrs, env)
                   others == Given(n.ns, env)
                   at == IF n.bind = "el" THEN (IF n.b = 0 THEN env.b ELSE n.b) ELSE IF n.bind = "" /\ n.tag = "option" THEN inh ELSE 0
                   bound == at # 0
                   (* a tag with no directive of flatland's passes as it is   *)
                   plain == ~bound /\ n.bind = "" /\ n.ctl = <<>>
                   w == Transform(n.tag, Given(n.ctl, env) \o own, ContentsOf(n.kids, env), Top(frames), IF bound THEN binds[at] ELSE NoBind)
                   f == IF plain THEN frames ELSE WithTop(frames, w.f)
                   c == IF plain THEN [t |-> "x", s |-> ""] ELSE w.c
                   inside == CASE c.t = "n" -> [out |-> <<>>, frames |-> f, bad |-> FALSE]
                               [] c.t = "s" -> [out |-> << <<"t", c.s>> >>, frames |-> f, bad |-> FALSE]
                               [] c.t = "h" -> [out |-> Parsed(c.s), frames |-> f, bad |-> FALSE]
                               [] OTHER -> whole(n.kids, f, IF n.tag = "select" /\ bound THEN at ELSE IF n.bind # "" THEN 0 ELSE inh)
               IN [inside EXCEPT !.out = << <<"s", n.tag, Pairs(IF plain THEN own ELSE w.a) \cup Pairs(others)>> >> \o @ \o << <<"e", n.tag>> >>]
  IN IF here.bad THEN here
     ELSE LET r == Render(Tail(ns), here.frames, inh, env, binds) IN [r EXCEPT !.out = here.out \o @]
Times(over, kids, frames, inh, env, binds) ==
  IF over = <<>> THEN [out |-> <<>>, frames |-> frames, bad |-> FALSE]
  ELSE LET here == Render(kids, frames, inh, [x |-> over[1].x, b |-> over[1].b], binds) IN
       IF here.bad THEN here
       ELSE LET r == Times(Tail(over), kids, here.frames, inh, env, binds) IN [r EXCEPT !.out = here.out \o @]

(* adjacent text is one text                                                  *)
RECURSIVE Joined(_)
Joined(es) ==
  IF es = <<>> THEN <<>>
  ELSE IF es[1][1] = "t" /\ es[1][2] = "" THEN Joined(Tail(es))
  ELSE LET r == Joined(Tail(es)) IN
       IF es[1][1] = "t" /\ r # <<>> /\ r[1][1] = "t" THEN << <<"t", es[1][2] \o r[1][2]>> >> \o Tail(r) ELSE <<es[1]>> \o r
Alone == [x |-> "", b |-> 0]
Result(nodes, binds) == LET r == Render(nodes, <<BaseFrame>>, 0, Alone, binds) IN [r EXCEPT !.out = Joined(@)]

(* the same template with nothing of flatland in it: tags as they are         *)
RECURSIVE Bare(_)
Bare(ns) == IF ns = <<>> THEN TRUE
            ELSE /\ ns[1].k \notin {"with", "set"}
                 /\ ns[1].k = "tag" => ns[1].bind = "" /\ ns[1].ctl = <<>>
                 /\ "kids" \in DOMAIN ns[1] => Bare(ns[1].kids)
                 /\ Bare(Tail(ns))
=============================================================================
