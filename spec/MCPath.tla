------------------------------- MODULE MCPath -------------------------------
(* All paths of up to MaxTokens tokens evaluated from every node of small     *)
(* trees: laws of the path language, and every path emitted for replay.       *)
EXTENDS Paths, Scalars, Json

CONSTANTS MaxTokens, Tokens

SBase == [k |-> "str", name |-> None, kids |-> <<>>, strip |-> TRUE, opt |-> FALSE, prune |-> TRUE,
         max |-> 1024, min |-> "none", pol |-> "subset", dk |-> "none", dv |-> NonePV, signed |-> TRUE, w |-> 0,
         true |-> "1", false |-> "", tsyn |-> <<>>, fsyn |-> <<>>, vals |-> <<>>, jsep |-> ",", jre |-> FALSE]
Sc(k, n, kids) == [SBase EXCEPT !.k = k, !.name = n, !.kids = kids]
PV(t, ks, xs) == [t |-> t, s |-> "?", tr |-> xs # <<>>, ks |-> ks, l |-> xs, full |-> ""]
Txt(x) == [t |-> "s", s |-> x, tr |-> x # "", ks |-> <<>>, l |-> <<>>, full |-> ""]

(* root dict: l = list of 2 dicts {x}, m = array of 3, "a.b" and ".." strings *)
Schema == Sc("dict", "r", <<Sc("list", "l", <<Sc("dict", None, <<Sc("str", "x", <<>>)>>)>>),
                            Sc("array", "m", <<Sc("str", None, <<>>)>>), Sc("str", "..", <<>>)>>)
Value == PV("d", <<"l", "m", "..">>, <<PV("l", <<>>, <<PV("d", <<"x">>, <<Txt("1")>>), PV("d", <<"x">>, <<Txt("2")>>)>>),
                                        PV("l", <<>>, <<Txt("a"), Txt("b"), Txt("c")>>), Txt("q")>>)
(* the same tree as nodes *)
Nd(k, kids, kn, up) == [k |-> k, kids |-> kids, kn |-> kn, up |-> up]
Tree == <<Nd("map", <<1, 6, 10>>, <<"l", "m", "..">>, -1),
          Nd("seq", <<2, 4>>, <<>>, 0), Nd("map", <<3>>, <<"x">>, 1), Nd("leaf", <<>>, <<>>, 2),
          Nd("map", <<5>>, <<"x">>, 1), Nd("leaf", <<>>, <<>>, 4),
          Nd("seq", <<7, 8, 9>>, <<>>, 0), Nd("leaf", <<>>, <<>>, 6), Nd("leaf", <<>>, <<>>, 6), Nd("leaf", <<>>, <<>>, 6),
          Nd("leaf", <<>>, <<>>, 0)>>
Ids == 0..10

VARIABLES path, n
vars == <<path, n>>
Init == path = "" /\ n = 0
(* a bracket group may not be followed by text, a backslash not by a slash    *)
Fits(p, t) == /\ EndsWith(p, "]") => Ch(t, 1) \in {"/", "["}
              /\ p # "" /\ Ch(p, Len(p)) \notin {"/", "]"} => Ch(t, 1) \in {"/", "["}
Add == /\ n < MaxTokens
       /\ \E t \in Tokens : /\ Fits(path, t) /\ path' = path \o t /\ n' = n + 1
Spec == Init /\ [][Add]_vars

Emitted == PrintT("RUN " \o ToJson([schema |-> Schema, pv |-> Value, paths |-> <<path>>, ats |-> <<0, 1, 2, 3, 6, 8, 10>>]))

Res(id) == Eval(Tree, Steps(path), id)
Absolute == Steps(path) # <<>> /\ Steps(path)[1].op = "top"
InTree == \A id \in Ids : Range2(Res(id).ids) \subseteq Ids
AbsoluteAnywhere == Absolute => \A id \in Ids : Res(id) = Res(0)
(* 'p/..' selects the parents of what p selects, unless p's last step could be dropped *)
NoSliceOne == (\A i \in 1..Len(Steps(path)) : Steps(path)[i].op # "slice") => \A id \in Ids : Len(Res(id).ids) <= 1
NonStrict == \A id \in Ids : Find2(Tree, path, id, FALSE, FALSE).err = ""
Strictness == \A id \in Ids :
  LET s == Find2(Tree, path, id, FALSE, TRUE)
      f == Find2(Tree, path, id, FALSE, FALSE)
  IN s.err = "" => s.ids = f.ids
Canonical == \A i \in 2..Len(Steps(path)) : Steps(path)[i].op = "up" => Steps(path)[i-1].op = "up"
Sliced(ids, a, b) == SubSeq(ids, a, b)
(* [:] and [::] are everything, a slice and its reverse mirror each other *)
SliceLaws ==
  path # "" /\ ~EndsWith(path, "/") =>
    \A id \in Ids :
      LET all == Eval(Tree, Steps(path \o "[:]"), id).ids IN
      /\ Eval(Tree, Steps(path \o "[::]"), id).ids = all
      /\ Eval(Tree, Steps(path \o "[:0]"), id).ids = <<>>
      /\ Len(Res(id).ids) = 1 =>
           /\ Eval(Tree, Steps(path \o "[::-1]"), id).ids = Rev(all)
           /\ Eval(Tree, Steps(path \o "[:1]"), id).ids \o Eval(Tree, Steps(path \o "[1:]"), id).ids = all
           /\ Eval(Tree, Steps(path \o "[:-1]"), id).ids \o Eval(Tree, Steps(path \o "[-1:]"), id).ids = all
(* every node's address from the root selects exactly it *)
RECURSIVE Address(_)
Address(id) == IF id = 0 THEN ""
               ELSE LET p == Tree[Tree[id + 1].up + 1] IN
                    Address(Tree[id + 1].up) \o "/" \o
                    (IF p.k = "seq" THEN ToString(IndexIn(p.kids, id) - 1)
                     ELSE IF p.kn[IndexIn(p.kids, id)] = ".." THEN "\\.\\." ELSE p.kn[IndexIn(p.kids, id)])
Addressable == n = 0 => \A id \in Ids \ {0} : \A from \in Ids : Eval(Tree, Steps(Address(id)), from).ids = <<id>>
=============================================================================
