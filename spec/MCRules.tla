------------------------------- MODULE MCRules -------------------------------
(* Every validator under every small configuration; values are added one at a *)
(* time.                                                                      *)
EXTENDS Rules, Json

CONSTANTS Members, Bounds, Texts, Ints
VARIABLES name, cf, values
vars == <<name, cf, values>>

Base == [lo |-> 0, hi |-> 0, min |-> NoneV, max |-> NoneV, bound |-> NoneV, options |-> <<>>, how |-> "list", inclusive |-> TRUE, cmp |-> "eq", paths |-> <<>>]
IntVals == {IntV(i) : i \in Ints}
StrVals == {StrV(x) : x \in Texts}
Scalars == IntVals \cup StrVals \cup {NoneV}
Lengths == {"ShorterThan", "NoLongerThan", "LongerThan", "LengthBetween"}
Counts == {"HasAtLeast", "HasAtMost", "HasBetween"}
Orders == {"ValueLessThan", "ValueAtMost", "ValueGreaterThan", "ValueAtLeast", "ValueBetween"}
Plain == {"Present", "IsTrue", "IsFalse", "Converted"}
Equals == {"MapEqual", "ValuesEqual", "UnisEqual"}
Sizes == 0..Bounds
Setups ==
  {<<n, Base>> : n \in Plain}
  \cup {<<n, [Base EXCEPT !.lo = a, !.hi = b]>> : n \in Lengths \cup {"HasAtLeast", "HasAtMost"}, a \in Sizes, b \in Sizes}
  \cup {<<"HasBetween", [Base EXCEPT !.lo = a, !.hi = b]>> : a \in Sizes, b \in Sizes}
  \cup {<<n, [Base EXCEPT !.min = a, !.max = b, !.bound = b, !.inclusive = i]>> : n \in Orders, a \in IntVals, b \in IntVals, i \in BOOLEAN}
  \cup {<<n, [Base EXCEPT !.min = a, !.max = b, !.bound = a, !.inclusive = i]>> : n \in Orders, a \in StrVals, b \in StrVals, i \in BOOLEAN}
  \cup {<<"ValueIn", [Base EXCEPT !.options = o]>> : o \in {<<>>} \cup {<<a>> : a \in Scalars} \cup {<<a, b>> : a \in Scalars, b \in Scalars}}
  \cup {<<"MapEqual", [Base EXCEPT !.cmp = c]>> : c \in {"eq", "value", "u", "length", "nocase"}}
  \cup {<<"ValuesEqual", Base>>, <<"UnisEqual", Base>>}
  \cup {<<"NotDuplicated", [Base EXCEPT !.cmp = c]>> : c \in {"eq", "value", "u", "nocase", "length", "longer", "never", "always"}}
Legal(s) == s[1] # "HasBetween" \/ Sensible(s[2].lo, s[2].hi)

Pool == CASE name \in Orders -> (IF cf.min.k = "int" THEN IntVals ELSE StrVals)
          [] name \in Equals -> IntVals \cup StrVals
          [] name \in Counts \cup {"NotDuplicated"} -> StrVals
          [] OTHER -> Scalars
Most == IF name \in Equals \cup Counts \cup {"NotDuplicated"} THEN Members ELSE 1
Least == IF name \in Counts THEN 0 ELSE IF name \in Equals THEN 2 ELSE 1

Init == \E s \in Setups : Legal(s) /\ name = s[1] /\ cf = s[2] /\ values = <<>>
Next == /\ Len(values) < Most /\ \E v \in Pool : values' = Append(values, v)
        /\ UNCHANGED <<name, cf>>
Spec == Init /\ [][Next]_vars

Uni(v) == IF v.k = "none" THEN "" ELSE TextOf(v)
El(v) == [v |-> v, u |-> Uni(v), name |-> "nm", label |-> "nm"]
Els == [i \in 1..Len(values) |-> El(values[i])]
Ready == Len(values) >= Least
It == CASE name \in Counts -> [El(NoneV) EXCEPT !.u = ""] @@ [members |-> Els, child |-> "wish"]
        [] name \in Equals -> El(NoneV) @@ [fields |-> Els]
        [] name = "NotDuplicated" -> [v |-> values[Len(values)], u |-> Uni(values[Len(values)]), name |-> "nm", label |-> "nm", members |-> Els, at |-> Len(values), container |-> "seq"]
        [] OTHER -> El(values[1])
OK(n, c) == Judge(n, c, It) = ""
Says == Ready => LET o == Outcome(name, cf, It, <<>>) IN Len(o.errors) = (IF o.valid THEN 0 ELSE 1)

(* the validators agree with each other where they meet                       *)
Agree ==
  Ready =>
  /\ name = "LengthBetween" => (OK(name, cf) <=> OK("LongerThan", cf) /\ OK("ShorterThan", cf))
  /\ name = "HasBetween" => (OK(name, cf) <=> OK("HasAtLeast", cf) /\ OK("HasAtMost", cf))
  /\ name = "ValueLessThan" => (OK(name, cf) <=> ~OK("ValueAtLeast", [cf EXCEPT !.min = cf.bound]))
  /\ name = "ValueGreaterThan" => (OK(name, cf) <=> ~OK("ValueAtMost", [cf EXCEPT !.max = cf.bound]))
  /\ name = "ValueBetween" /\ cf.inclusive => (OK(name, cf) <=> OK("ValueAtLeast", cf) /\ OK("ValueAtMost", cf))
  /\ name = "ValueBetween" /\ ~cf.inclusive => (OK(name, cf) <=> OK("ValueGreaterThan", [cf EXCEPT !.bound = cf.min]) /\ OK("ValueLessThan", [cf EXCEPT !.bound = cf.max]))
  /\ name = "IsTrue" => (OK(name, cf) <=> ~OK("IsFalse", cf))
  /\ name = "ValueBetween" /\ ~cf.inclusive => (OK(name, cf) => OK(name, [cf EXCEPT !.inclusive = TRUE]))
  /\ name = "MapEqual" /\ cf.cmp = "eq" => (OK(name, cf) <=> OK("ValuesEqual", cf) /\ OK("UnisEqual", cf))
(* more members never help HasAtMost and never hurt HasAtLeast                *)
Monotone == [][/\ name = "HasAtMost" /\ Judge(name, cf, It) # "" => Judge(name', cf', It') # ""
               /\ name = "HasAtLeast" /\ Judge(name, cf, It) = "" => Judge(name', cf', It') = ""
               /\ name \in Equals /\ Ready /\ Judge(name, cf, It) # "" => Judge(name', cf', It') # ""]_vars
(* of equal members exactly the first is accepted                             *)
Accepted == {i \in 1..Len(values) : Judge(name, cf, [It EXCEPT !.at = i]) = ""}
OnePerValue == (name = "NotDuplicated" /\ cf.cmp \in {"eq", "value", "u"} /\ Ready) => Cardinality(Accepted) = Cardinality(Range2(values)) /\ 1 \in Accepted
Emitted == Ready => PrintT("RUN " \o ToJson([v |-> name, cf |-> cf, values |-> values]))
=============================================================================
