-------------------------------- MODULE Derive --------------------------------
(* Schema classes and what deriving makes of them (C09), and the fields of    *)
(* declarative Forms (C16).                                                   *)
(*                                                                            *)
(* A class (or instance) is [kind |-> what it descends from,                  *)
(*   a |-> set of <<attribute, text>>, vs |-> validators, ds |-> descent      *)
(*   validators, ps |-> set of <<property, text>>,                            *)
(*   fs |-> set of <<field name, the class the field was derived from>>].     *)
EXTENDS Text

AttrNames(c) == {p[1] : p \in c.a}
Attr(c, n) == (CHOOSE p \in c.a : p[1] = n)[2]
SetAttr(c, n, v) == [c EXCEPT !.a = {p \in @ : p[1] # n} \cup {<<n, v>>}]
RECURSIVE SetAttrs(_, _)
SetAttrs(c, ps) == IF ps = <<>> THEN c ELSE SetAttrs(SetAttr(c, ps[1][1], ps[1][2]), Tail(ps))
LayProps(ps, new) == {p \in ps : \A q \in Range2(new) : q[1] # p[1]} \cup Range2(new)

Maps == {"Dict", "SparseDict", "Form"}
Seqs == {"List", "Array", "MultiValue", "JoinedString"}
Containers == Maps \cup Seqs \cup {"DateYYYYMMDD"}

(* list.insert at a position counted like the documentation does              *)
At(n, pos) == IF pos < 0 THEN n + 1 + pos ELSE Min2(pos, n)
Splice(old, new, pos) == LET p == At(Len(old), pos) IN SubSeq(old, 1, p) \o new \o SubSeq(old, p + 1, Len(old))

Id(i) == "#" \o ToString(i)
Err == [ok |-> FALSE]
Yes(c) == [ok |-> TRUE, c |-> c]

(* requested overrides: op.sets = attribute texts, op.vs etc. = <<given, ..>> *)
Overridden(c, op, cls) ==
  LET c1 == SetAttrs(c, op.sets)
      c2 == IF op.vs.given THEN [c1 EXCEPT !.vs = op.vs.l] ELSE c1
      c3 == IF op.ds.given THEN [c2 EXCEPT !.ds = op.ds.l] ELSE c2
      c4 == IF op.ps.given THEN [c3 EXCEPT !.ps = Range2(op.ps.l)] ELSE c3
  IN IF op.fs.given THEN [c4 EXCEPT !.fs = {<<cls[i].name, cls[i].id>> : i \in Range2(op.fs.l)}] ELSE c4

PathText(path, sep) ==
  IF path = sep THEN "Root"
  ELSE IF StartsWith(path, sep) THEN "Root|" \o Join(SplitBy(Drop(path, Len(sep)), sep), "|")
  ELSE Join(SplitBy(path, sep), "|")

(* names of the fields given to of(), which must differ                       *)
Distinct(ids, cls) == \A i \in 1..Len(ids) : \A j \in 1..Len(ids) : (i # j /\ ids[i] # -1 /\ ids[j] # -1) => cls[ids[i]].name # cls[ids[j]].name
FieldsOf(ids, cls) == {<<cls[i].name, cls[i].id>> : i \in Range2(ids)}
FieldText(ids, cls) == {cls[i].name \o "~" \o cls[i].id : i \in Range2(ids)}

(* what deriving class c gives; cls[i].name and .id describe registered ones  *)
Derived(c, op, cls) ==
  CASE op.o = "named" -> Yes(SetAttr(c, "name", op.text))
    [] op.o \in {"using", "new"} -> IF op.unknown THEN Err ELSE Yes(Overridden(c, op, cls))
    [] op.o = "validated_by" -> IF op.type THEN Err ELSE Yes([c EXCEPT !.vs = op.l])
    [] op.o = "including_validators" -> IF op.unknown THEN Err ELSE Yes([c EXCEPT !.vs = Splice(@, op.l, op.pos)])
    [] op.o = "descent_validated_by" -> IF op.type THEN Err ELSE Yes([c EXCEPT !.ds = op.l])
    [] op.o = "including_descent_validators" -> IF op.unknown THEN Err ELSE Yes([c EXCEPT !.ds = Splice(@, op.l, op.pos)])
    [] op.o = "with_properties" -> Yes([c EXCEPT !.ps = LayProps(@, op.ps.l)])
    [] op.o = "valued" -> Yes(SetAttr(c, "valid_values", op.text))
    [] op.o = "to" -> Yes(SetAttr(c, "target_path", PathText(op.text, op.sep)))
    [] op.o = "of" ->
         IF -1 \in Range2(op.l) THEN Err                          \* an instance among them
         ELSE IF c.kind \in Maps THEN IF ~Distinct(op.l, cls) THEN Err ELSE Yes([c EXCEPT !.fs = FieldsOf(op.l, cls)])
         ELSE IF op.l = <<>> THEN Err
         ELSE IF Len(op.l) = 1 THEN Yes(SetAttr(c, "member", cls[op.l[1]].id))
         ELSE IF ~Distinct(op.l, cls) THEN Err
         ELSE Yes(SetAttr(c, "member", "Dict"))                  \* its fields: MemberFields
    [] op.o = "subclass" -> Yes(c)
MemberFields(c, op, cls) == IF op.o = "of" /\ c.kind \in Seqs /\ op.l # <<>> /\ Len(op.l) > 1 THEN FieldText(op.l, cls) ELSE {}

(* --- Forms ---                                                              *)
(* fields: set of <<name, class>>                                             *)
Over(new, old) == {f \in old : \A g \in new : g[1] # f[1]} \cup new
RECURSIVE LastWins(_), FirstWins(_)
LastWins(fs) == IF fs = <<>> THEN {} ELSE Over({fs[Len(fs)]}, LastWins(SubSeq(fs, 1, Len(fs) - 1)))
FirstWins(sets) == IF sets = <<>> THEN {} ELSE Over(sets[1], FirstWins(Tail(sets)))
(* bases: their field sets; own: the field_schema it states; decl: <<attribute, class>> *)
FormFields(bases, own, decl) == Over(Range2(decl), Over(LastWins(own), FirstWins(bases)))
=============================================================================
