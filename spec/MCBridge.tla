------------------------------- MODULE MCBridge -------------------------------
(* Every selection over a small element and object, in both directions, and   *)
(* what the documentation promises about them.                                *)
EXTENDS Bridge, Json

CONSTANTS Incs, Oms, Rens, KeyFns
Names(t) == IF t = "" THEN <<>> ELSE SplitBy(t, ",")
Pairs(t) == IF t = "" THEN <<>> ELSE LET ps == SplitBy(t, ",") IN [i \in 1..Len(ps) |-> LET q == SplitBy(ps[i], ">") IN <<q[1], q[2]>>]
Fields == {"a", "b", "c"}
KeyTab(k) == CASE k = "none" -> <<>> [] k = "pre" -> <<<<"a", "p_a">>, <<"b", "p_b">>, <<"c", "p_c">>>>
               [] k = "one" -> <<<<"a", "z">>, <<"b", "z">>, <<"c", "c">>>>
Els == {{<<"a", "1">>, <<"b", "2">>, <<"c", "3">>}, {<<"b", "2">>}}
Objs == {{<<"a", "7">>, <<"q", "8">>, <<"z", "9">>}, {<<"a", "7">>, <<"b", "6">>, <<"c", "5">>, <<"q", "8">>}, {}}

VARIABLES how, sel, keyfn, el, obj, result
vars == <<how, sel, keyfn, el, obj, result>>
Init == /\ how \in {"slice", "update_object", "set_by_object", "from_object"}
        /\ \E i \in Incs, o \in Oms, r \in Rens, k \in (IF how \in {"slice", "update_object"} THEN KeyFns ELSE {"none"}) :
             /\ sel = [inc |-> Names(i), om |-> Names(o), ren |-> Pairs(r), key |-> KeyTab(k)]
             /\ keyfn = k
        /\ el \in Els /\ obj \in Objs
        /\ result = IF Refused(sel) THEN {} ELSE IF how \in {"slice", "update_object"} THEN Emits(el, sel) ELSE Pulls(obj, Fields, sel)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == PrintT("RUN " \o ToJson([how |-> how, inc |-> sel.inc, om |-> sel.om, ren |-> sel.ren, keyfn |-> keyfn, el |-> el, obj |-> obj]))

Src == IF how \in {"slice", "update_object"} THEN el ELSE obj
Ren == DictOf(sel.ren)
Out == ~Refused(sel)
(* a renamed one is always there, under its new name (if that is a field, when reading) *)
RenamedAlways == Out => \A p \in Src : LET k == KeyOf(sel, p[1]) IN
  k \in Keys2(Ren) /\ (how \in {"slice", "update_object"} \/ At2(Ren, k) \in Fields) => <<At2(Ren, k), p[2]>> \in result
NeverOldName == Out => \A p \in result : (p[1] \in Keys2(Ren)) => p[1] \in {q[2] : q \in Ren}
OnlyIncluded == Out /\ sel.inc # <<>> => Keys2(result) \subseteq (Range2(sel.inc) \cup {q[2] : q \in Ren})
NothingOmitted == Out /\ sel.om # <<>> => Keys2(result) \cap Range2(sel.om) \subseteq {q[2] : q \in Ren}
AllWithoutLimits == Out /\ sel.inc = <<>> /\ sel.om = <<>> /\ sel.ren = <<>> /\ how = "slice" => {p[2] : p \in result} = {p[2] : p \in el}
ReadsOnlyFields == Out /\ how \in {"set_by_object", "from_object"} => Keys2(result) \subseteq Fields
(* writing out and reading back with the inverse renaming restores            *)
Inverse == [j \in 1..Len(sel.ren) |-> <<sel.ren[j][2], sel.ren[j][1]>>]
RoundTrip == (Out /\ how = "slice" /\ keyfn = "none" /\ sel.inc = <<>> /\ sel.om = <<>>
              /\ Cardinality(result) = Cardinality(el) /\ Cardinality(Keys2(result)) = Cardinality(el)
              /\ Cardinality(Keys2(Ren)) = Len(sel.ren) /\ Cardinality({q[2] : q \in Ren}) = Len(sel.ren)
              /\ {q[1] : q \in Ren} \subseteq Keys2(el))
   => Pulls(result, Fields, [inc |-> <<>>, om |-> <<>>, ren |-> Inverse, key |-> <<>>]) = el
=============================================================================
