------------------------------- MODULE MCDerive -------------------------------
(* Every hierarchy of up to MaxForms Form statements over a few leaves and a  *)
(* Dict, with the precedence laws stated name by name; and, over every small  *)
(* class, that each derivation changes only what it was asked to change.      *)
EXTENDS Derive, Json

CONSTANTS MaxForms, Owns, Decls
(* constants are texts: an own field_schema "5,6", declarations "x=1,y=2"     *)
Nums == [t \in {"1", "2", "4", "5", "6", "7", "8"} |-> CASE t = "1" -> 1 [] t = "2" -> 2 [] t = "4" -> 4 [] t = "5" -> 5 [] t = "6" -> 6 [] t = "7" -> 7 [] t = "8" -> 8]
OwnOf(t) == IF t = "" THEN <<>> ELSE LET ps == SplitBy(t, ",") IN [i \in 1..Len(ps) |-> Nums[ps[i]]]
DeclOf(t) == IF t = "" THEN <<>> ELSE LET ps == SplitBy(t, ",") IN [i \in 1..Len(ps) |-> LET q == SplitBy(ps[i], "=") IN <<q[1], Nums[q[2]]>>]

(* 1 String 2 Integer 3 Dict 4 Form; 5 String x; 6 Integer x; 7 String y; 8 Dict(6, 7) *)
Setup == <<[o |-> "named", i |-> 1, text |-> "x"], [o |-> "named", i |-> 2, text |-> "x"],
           [o |-> "named", i |-> 1, text |-> "y"], [o |-> "of", i |-> 3, l |-> <<6, 7>>]>>
NameOf == <<"~", "~", "~", "~", "x", "x", "y", "~">>

VARIABLES forms, hist          \* forms[j]: [bases, own, decl, fs] of class 8 + j
vars == <<forms, hist>>
FieldsOf2(b) == IF b <= 4 THEN {} ELSE IF b = 8 THEN {<<"x", Id(6)>>, <<"y", Id(7)>>} ELSE forms[b - 8].fs
RECURSIVE Above(_)
Above(b) == IF b <= 8 THEN {b} ELSE {b} \cup UNION {Above(c) : c \in Range2(forms[b - 8].bases)} \cup {4}
Cands == {4} \cup {8 + j : j \in 1..Len(forms)}
BaseLists == {<<b>> : b \in Cands}
             \cup {<<b, 8>> : b \in Cands} \cup {<<8, b>> : b \in Cands}
             \cup {<<p[1], p[2]>> : p \in {q \in Cands \X Cands : q[1] \notin Above(q[2]) /\ q[2] \notin Above(q[1])}}
Fits(bs) == \A i \in 1..Len(bs) : \A j \in 1..Len(bs) : (i # j) => (bs[i] \notin Above(bs[j]))

Init == forms = <<>> /\ hist = <<>>
Next == /\ Len(forms) < MaxForms
        /\ \E bs \in BaseLists, own \in Owns, decl \in Decls :
             /\ Fits(bs)
             /\ LET o == OwnOf(own)
                    d == DeclOf(decl)
                    named == [j \in 1..Len(o) |-> <<NameOf[o[j]], Id(o[j])>>]
                    fs == FormFields([j \in 1..Len(bs) |-> FieldsOf2(bs[j])], named, [j \in 1..Len(d) |-> <<d[j][1], Id(d[j][2])>>])
                IN /\ forms' = Append(forms, [bases |-> bs, own |-> o, decl |-> d, fs |-> fs])
                   /\ hist' = Append(hist, [o |-> "form", bases |-> bs, own |-> o, decl |-> d])
                   /\ PrintT("RUN " \o ToJson([ops |-> Setup \o hist']))
Spec == Init /\ [][Next]_vars
Projected == forms

(* --- precedence, name by name ---                                           *)
Get(fs, n) == {f[2] : f \in {g \in fs : g[1] = n}}
Wanted(F, n) ==
  LET ds == SelectSeq(F.decl, LAMBDA d : d[1] = n)
      os == SelectSeq(F.own, LAMBDA i : NameOf[i] = n)
      bs == SelectSeq(F.bases, LAMBDA b : Get(FieldsOf2(b), n) # {})
  IN IF ds # <<>> THEN {Id(ds[1][2])}
     ELSE IF os # <<>> THEN {Id(os[Len(os)])}
     ELSE IF bs # <<>> THEN Get(FieldsOf2(bs[1]), n) ELSE {}
Precedence == \A j \in 1..Len(forms) : \A n \in {"x", "y", "z"} : Get(forms[j].fs, n) = Wanted(forms[j], n)
OnceEach == \A j \in 1..Len(forms) : \A f \in forms[j].fs : \A g \in forms[j].fs : f[1] = g[1] => f = g
(* nothing is lost: a form has every name of each of its bases                *)
Extends == \A j \in 1..Len(forms) : \A b \in Range2(forms[j].bases) : {f[1] : f \in FieldsOf2(b)} \subseteq {f[1] : f \in forms[j].fs}
BasesKept == [][SubSeq(forms', 1, Len(forms)) = forms]_vars

(* --- derivations change only what they were asked to ---                    *)
VLists == {<<>>, <<"v0">>, <<"v1", "v2">>, <<"v0", "v1", "v2">>}
Positions == -4..5
ASSUME \A old \in VLists : \A new \in VLists : \A pos \in Positions :
  (pos >= -(Len(old) + 1)) =>
  LET s == Splice(old, new, pos) IN
  /\ Len(s) = Len(old) + Len(new)
  /\ \E k \in 0..Len(old) : SubSeq(s, 1, k) = SubSeq(old, 1, k) /\ SubSeq(s, k + 1, k + Len(new)) = new /\ SubSeq(s, k + Len(new) + 1, Len(s)) = SubSeq(old, k + 1, Len(old))
       /\ k = (IF pos = -1 THEN Len(old) ELSE IF pos < -1 THEN Len(old) + pos + 1 ELSE IF pos > Len(old) THEN Len(old) ELSE pos)
Small == [kind : {"String", "List", "Dict"}, a : {{<<"name", "~">>, <<"member", "None">>}, {<<"name", "q">>, <<"member", "#5">>}},
          vs : VLists, ds : {<<>>, <<"v3">>}, ps : {{}, {<<"p", "1">>}}, fs : {{}, {<<"x", "#5">>}}]
Cls == [i \in 1..8 |-> [name |-> NameOf[i], id |-> Id(i)]]
Not == [given |-> FALSE, l |-> <<>>]
Ops == {[o |-> "named", text |-> "w"], [o |-> "validated_by", l |-> <<"v5">>, type |-> FALSE],
        [o |-> "including_validators", l |-> <<"v5">>, pos |-> 0, unknown |-> FALSE],
        [o |-> "descent_validated_by", l |-> <<"v5">>, type |-> FALSE],
        [o |-> "including_descent_validators", l |-> <<"v5">>, pos |-> -1, unknown |-> FALSE],
        [o |-> "with_properties", ps |-> [given |-> TRUE, l |-> <<<<"p", "2">>, <<"q", "3">>>>]],
        [o |-> "of", l |-> <<5>>], [o |-> "of", l |-> <<5, 7>>], [o |-> "of", l |-> <<5, 6>>], [o |-> "of", l |-> <<>>],
        [o |-> "using", unknown |-> FALSE, sets |-> <<<<"name", "w">>>>, vs |-> Not, ds |-> Not, ps |-> Not, fs |-> Not],
        [o |-> "using", unknown |-> FALSE, sets |-> <<>>, vs |-> [given |-> TRUE, l |-> <<>>], ds |-> Not, ps |-> [given |-> TRUE, l |-> <<>>], fs |-> Not],
        [o |-> "using", unknown |-> TRUE, sets |-> <<>>, vs |-> Not, ds |-> Not, ps |-> Not, fs |-> Not]}
Touches(c, op) ==
  CASE op.o = "named" -> {"a"} [] op.o \in {"validated_by", "including_validators"} -> {"vs"}
    [] op.o \in {"descent_validated_by", "including_descent_validators"} -> {"ds"} [] op.o = "with_properties" -> {"ps"}
    [] op.o = "of" -> IF c.kind \in Maps THEN {"fs"} ELSE {"a"}
    [] op.o = "using" -> IF op.sets # <<>> THEN {"a"} ELSE {"vs", "ps"}
ASSUME \A c \in Small : \A op \in Ops :
  ((op.o # "of" \/ c.kind # "String") =>
  LET d == Derived(c, op, Cls) IN
  d.ok => /\ d.c.kind = c.kind
          /\ \A f \in {"a", "vs", "ds", "ps", "fs"} \ Touches(c, op) : d.c[f] = c[f]
          /\ AttrNames(d.c) = AttrNames(c)
          /\ Cardinality(d.c.a) = Cardinality(AttrNames(d.c)))
=============================================================================
