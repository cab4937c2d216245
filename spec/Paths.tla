------------------------------- MODULE Paths -------------------------------
(* The path language of find() and el(), and what a path addresses.           *)
(*                                                                            *)
(* An operation is [op |-> "top" | "up" | "here" | "name" | "slice", n |->    *)
(* name, a, b |-> <<given, bound>>, c |-> stride].                            *)
(* A tree is a sequence of nodes; node ids start at 0 (the root):             *)
(*   k "map" | "seq" | "leaf",  kids: ids in document order,                  *)
(*   kn: keys of the kids (maps only),  up: id of the visible parent or -1.   *)
EXTENDS Text

NoBound == <<FALSE, 0>>
Op(o) == [op |-> o, n |-> "", a |-> NoBound, b |-> NoBound, c |-> 1]
NameOp(n) == [Op("name") EXCEPT !.n = n]
NoName == "\n none"                     \* the name no child has

-----------------------------------------------------------------------------
(* parsing *)

Special == {"/", ".", "["}
Unescapable == {"/", ".", "[", "]"}

(* split at unescaped slashes; a backslash before a special character takes   *)
(* it along                                                                   *)
RECURSIVE Segs(_, _, _)
Segs(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) \in Special
       THEN Segs(s, i + 2, cur \o SubSeq(s, i, i + 1))
  ELSE IF Ch(s, i) = "/" THEN <<cur>> \o Segs(s, i + 1, "")
  ELSE Segs(s, i + 1, cur \o Ch(s, i))

RECURSIVE Unescape(_, _)
Unescape(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) \in Unescapable
       THEN Ch(s, i + 1) \o Unescape(s, i + 2)
  ELSE Ch(s, i) \o Unescape(s, i + 1)

(* position of the first bracket opening of a segment, 0 if none              *)
RECURSIVE Opening(_, _)
Opening(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) \in Special THEN Opening(s, i + 2)
  ELSE IF Ch(s, i) = "[" THEN i ELSE Opening(s, i + 1)

(* "[x][y]" as <<"x", "y">>                                                   *)
RECURSIVE Groups(_)
Groups(s) == IF s = "" THEN <<>>
             ELSE LET e == FindFrom(s, "]", 1) IN <<SubSeq(s, 2, e - 1)>> \o Groups(Drop(s, e))

Numeral(x) == AllDigits(IF StartsWith(x, "-") THEN Drop(x, 1) ELSE x)
IsIndex(g) == Numeral(g)
IsSlice(g) == LET p == SplitBy(g, ":") IN
              Len(p) \in {2, 3} /\ \A i \in 1..Len(p) : p[i] = "" \/ Numeral(p[i])
Bound(x) == IF x = "" THEN NoBound ELSE <<TRUE, SmallInt(x)>>
SliceOp(g) == LET p == SplitBy(g, ":")
                  st == IF Len(p) = 3 /\ p[3] # "" THEN SmallInt(p[3]) ELSE 1
              IN [op |-> "slice", n |-> "", a |-> Bound(p[1]), b |-> Bound(p[2]), c |-> IF st = 0 THEN 1 ELSE st]

(* bracket groups after a segment's text; groups that are neither an index    *)
(* nor a slice belong to the name before them                                 *)
RECURSIVE GroupOps(_, _)
GroupOps(ops, gs) ==
  IF gs = <<>> THEN ops
  ELSE LET g == gs[1] IN
       GroupOps(CASE IsIndex(g) -> Append(ops, NameOp(g))
                  [] IsSlice(g) -> Append(ops, SliceOp(g))
                  [] ops # <<>> /\ ops[Len(ops)].op = "name" ->
                       [ops EXCEPT ![Len(ops)].n = @ \o Unescape("[" \o g \o "]", 1)]
                  [] OTHER -> Append(ops, NameOp(Unescape("[" \o g \o "]", 1))), Tail(gs))
SegOps(s) ==
  LET i == Opening(s, 1)
      text == IF i = 0 THEN s ELSE Take(s, i - 1)
      first == CASE text = "" -> <<>> [] text = "." -> <<Op("here")>> [] text = ".." -> <<Op("up")>>
                 [] OTHER -> <<NameOp(Unescape(text, 1))>>
  IN GroupOps(first, IF i = 0 THEN <<>> ELSE Groups(Drop(s, i - 1)))

Parse(path) ==
  LET ss == Segs(path, 1, "")
      n == Len(ss)
      piece(i) == IF ss[i] = "" THEN IF i = 1 THEN (IF n > 1 THEN <<Op("top")>> ELSE <<>>)
                                     ELSE IF i = n THEN <<>> ELSE <<NameOp(NoName)>>
                  ELSE SegOps(ss[i])
  IN FlatSeq([i \in 1..n |-> piece(i)])

(* a step down and the '..' after it cancel out; '..' at the root stays there *)
RECURSIVE Cancel(_, _)
Cancel(ops, done) ==
  IF ops = <<>> THEN done
  ELSE LET o == ops[1]
           n == Len(done)
       IN CASE o.op = "here" -> Cancel(Tail(ops), done)
            [] o.op # "up" \/ n = 0 -> Cancel(Tail(ops), Append(done, o))
            [] done[n].op = "top" -> Cancel(Tail(ops), done)
            [] done[n].op = "up" -> Cancel(Tail(ops), Append(done, o))
            [] OTHER -> Cancel(Tail(ops), Take(done, n - 1))
Steps(path) == Cancel(Parse(path), <<>>)

-----------------------------------------------------------------------------
(* addressing *)

Node(tree, id) == tree[id + 1]

(* a sequence's members are named by anything int() reads as their index      *)
Position(node, name) ==
  LET t == IntText(Strip(name))
      n == Len(node.kids)
  IN IF t = "" \/ Len(t) > 6 THEN 0
     ELSE LET i == SmallInt(t) IN
          IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0) ELSE IF 0 - i <= n THEN n + 1 + i ELSE 0
(* id of a named child, -1 if there is none                                   *)
Child(tree, id, name) ==
  LET node == Node(tree, id) IN
  CASE node.k = "map" -> LET i == IndexIn(node.kn, name) IN IF i = 0 THEN -1 ELSE node.kids[i]
    [] node.k = "seq" -> LET i == Position(node, name) IN IF i = 0 THEN -1 ELSE node.kids[i]
    [] OTHER -> -1

(* positions a[x:y:z] selects out of n *)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Sel(n, a, b, step) ==
  LET from(x) == IF x < 0 THEN x + n ELSE x
      lo == IF step > 0 THEN (IF a[1] THEN Clip(from(a[2]), 0, n) ELSE 0)
            ELSE (IF a[1] THEN Clip(from(a[2]), -1, n - 1) ELSE n - 1)
      hi == IF step > 0 THEN (IF b[1] THEN Clip(from(b[2]), 0, n) ELSE n)
            ELSE (IF b[1] THEN Clip(from(b[2]), -1, n - 1) ELSE -1)
      count == IF step > 0 THEN (IF hi > lo THEN (hi - lo + step - 1) \div step ELSE 0)
               ELSE (IF lo > hi THEN (lo - hi + (0 - step) - 1) \div (0 - step) ELSE 0)
  IN [i \in 1..count |-> lo + (i - 1) * step + 1]

(* [miss |-> some step had no such child, ids |-> selected elements in order] *)
RECURSIVE Eval(_, _, _), EvalEach(_, _, _)
Eval(tree, ops, id) ==
  IF ops = <<>> THEN [miss |-> FALSE, ids |-> <<id>>]
  ELSE LET o == ops[1]
           rest == Tail(ops)
       IN CASE o.op = "top"  -> Eval(tree, rest, 0)
            [] o.op = "here" -> Eval(tree, rest, id)
            [] o.op = "up"   -> Eval(tree, rest, IF Node(tree, id).up < 0 THEN id ELSE Node(tree, id).up)
            [] o.op = "name" -> LET c == Child(tree, id, o.n) IN
                                IF c < 0 THEN [miss |-> TRUE, ids |-> <<>>] ELSE Eval(tree, rest, c)
            [] o.op = "slice" ->
                 LET kids == Node(tree, id).kids
                     ps == Sel(Len(kids), o.a, o.b, o.c)
                 IN EvalEach(tree, rest, [i \in 1..Len(ps) |-> kids[ps[i]]])
EvalEach(tree, ops, ids) ==
  IF ids = <<>> THEN [miss |-> FALSE, ids |-> <<>>]
  ELSE LET a == Eval(tree, ops, ids[1])
           b == EvalEach(tree, ops, Tail(ids))
       IN [miss |-> a.miss \/ b.miss, ids |-> a.ids \o b.ids]

(* find(): "miss", "many" (LookupError) or the selected ids                   *)
Find2(tree, path, id, single, strict) ==
  LET e == Eval(tree, Steps(path), id) IN
  IF strict /\ e.miss THEN [err |-> "miss", ids |-> <<>>]
  ELSE IF single /\ strict /\ Len(e.ids) > 1 THEN [err |-> "many", ids |-> <<>>]
  ELSE [err |-> "", ids |-> e.ids]

(* el(): names separated by sep, a leading sep for the root                   *)
RECURSIVE Walk(_, _, _)
Walk(tree, id, names) ==
  IF names = <<>> THEN id
  ELSE LET c == Child(tree, id, names[1]) IN IF c < 0 THEN -1 ELSE Walk(tree, c, Tail(names))
El(tree, path, sep, id) ==
  IF path = sep THEN 0
  ELSE IF StartsWith(path, sep) THEN Walk(tree, 0, SplitBy(Drop(path, Len(sep)), sep))
  ELSE Walk(tree, id, SplitBy(path, sep))
ElNames(tree, names, id) == IF names = <<>> THEN -1 ELSE Walk(tree, id, names)
=============================================================================
