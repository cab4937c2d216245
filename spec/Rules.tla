-------------------------------- MODULE Rules --------------------------------
(* What the validators of values and of containers accept, and what they say. *)
(*                                                                            *)
(* A value is [k |-> "none" | "int" | "bool" | "str", n |-> its number,       *)
(* s |-> its text]; an element is [v |-> value, u |-> text, name, label].     *)
EXTENDS Messages

NoneV == [k |-> "none", n |-> 0, s |-> ""]
IntV(i) == [k |-> "int", n |-> i, s |-> ""]
StrV(x) == [k |-> "str", n |-> 0, s |-> x]
Number(v) == v.k \in {"int", "bool"}
Same(a, b) == IF Number(a) /\ Number(b) THEN a.n = b.n ELSE a = b
Truth(v) == CASE v.k = "none" -> FALSE [] v.k = "str" -> v.s # "" [] OTHER -> v.n # 0
TextOf(v) == CASE v.k = "none" -> "None" [] v.k = "str" -> v.s [] v.k = "bool" -> (IF v.n = 1 THEN "True" ELSE "False") [] OTHER -> ToString(v.n)
Order == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                  ELSE IF Ch(a, 1) = Ch(b, 1) THEN TextLess(Drop(a, 1), Drop(b, 1))
                  ELSE Find(Order, Ch(a, 1)) < Find(Order, Ch(b, 1))
Less(a, b) == IF Number(a) /\ Number(b) THEN a.n < b.n ELSE TextLess(a.s, b.s)
AtMost(a, b) == ~Less(b, a)
Lower(s) == Translate(s, [c \in {"A", "B", "C", "X", "Y"} |-> CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "X" -> "x" [] OTHER -> "y"])

(* the messages as they come                                                  *)
S(t) == [f |-> "s", a |-> t, b |-> "", key |-> ""]
P(a, b, k) == [f |-> "t", a |-> a, b |-> b, key |-> k]
Defaults == [
  Present |-> [missing |-> S("%(label)s may not be blank.")],
  IsTrue |-> [false |-> S("%(label)s must be True.")],
  IsFalse |-> [true |-> S("%(label)s must be False.")],
  ValueIn |-> [fail |-> S("%(value)s is not a valid value for %(label)s.")],
  Converted |-> [incorrect |-> S("%(label)s is not correct.")],
  ShorterThan |-> [exceeded |-> S("%(label)s may not exceed %(maxlength)s characters.")],
  NoLongerThan |-> [exceeded |-> S("%(label)s may not exceed %(maxlength)s characters.")],
  LongerThan |-> [short |-> S("%(label)s must be at least %(minlength)s characters.")],
  LengthBetween |-> [breached |-> S("%(label)s must be between %(minlength)s and %(maxlength)s characters long.")],
  ValueLessThan |-> [failure |-> S("%(label)s must be less than %(boundary)s.")],
  ValueAtMost |-> [failure |-> S("%(label)s must be less than or equal to %(maximum)s.")],
  ValueGreaterThan |-> [failure |-> S("%(label)s must be greater than %(boundary)s.")],
  ValueAtLeast |-> [failure |-> S("%(label)s must be greater than or equal to %(minimum)s.")],
  ValueBetween |-> [failure_inclusive |-> S("%(label)s must be in the range %(minimum)s to %(maximum)s."),
                    failure_exclusive |-> S("%(label)s must be greater than %(minimum)s and less than %(maximum)s.")],
  MapEqual |-> [unequal |-> S("%(labels)s and %(last_label)s do not match.")],
  ValuesEqual |-> [unequal |-> S("%(labels)s and %(last_label)s do not match.")],
  UnisEqual |-> [unequal |-> S("%(labels)s and %(last_label)s do not match.")],
  NotDuplicated |-> [failure |-> S("%(label)s may not be repeated within %(container_label)s.")],
  HasAtLeast |-> [failure |-> P("%(label)s must contain at least one %(child_label)s", "%(label)s must contain at least %(minimum)s %(child_label)ss", "minimum")],
  HasAtMost |-> [failure |-> P("%(label)s must contain at most one %(child_label)s", "%(label)s must contain at most %(maximum)s %(child_label)ss", "maximum")],
  HasBetween |-> [range |-> P("%(label)s must contain at least %(minimum)s and at most %(maximum)s %(child_label)s",
                              "%(label)s must contain at least %(minimum)s and at most %(maximum)s %(child_label)ss", "maximum"),
                  exact |-> P("%(label)s must contain exactly one %(child_label)s", "%(label)s must contain exactly %(minimum)s %(child_label)ss", "minimum")] ]

(* cf: the configuration. min, max, bound: values; lo, hi: numbers; options;  *)
(* inclusive; cmp: how two elements are compared or what is compared          *)
Compare(cmp, a, b) ==
  CASE cmp = "eq" -> Same(a.v, b.v) /\ a.u = b.u
    [] cmp = "value" -> Same(a.v, b.v)
    [] cmp = "u" -> a.u = b.u
    [] cmp = "nocase" -> Lower(a.u) = Lower(b.u)
    [] cmp = "length" -> Len(a.u) = Len(b.u)
    [] cmp = "longer" -> Len(a.u) > Len(b.u)
    [] cmp = "never" -> FALSE
    [] OTHER -> TRUE

(* "" accepts, anything else names the message                                *)
When(ok, m) == IF ok THEN "" ELSE m
Judge(name, cf, e) ==
  CASE name = "Present" -> When(e.u # "", "missing")
    [] name = "IsTrue" -> When(Truth(e.v), "false")
    [] name = "IsFalse" -> When(~Truth(e.v), "true")
    [] name = "ValueIn" -> When(\E i \in 1..Len(cf.options) : Same(cf.options[i], e.v), "fail")
    [] name = "Converted" -> When(e.v # NoneV, "incorrect")
    [] name \in {"ShorterThan", "NoLongerThan"} -> When(Len(e.u) <= cf.hi, "exceeded")
    [] name = "LongerThan" -> When(Len(e.u) >= cf.lo, "short")
    [] name = "LengthBetween" -> When(cf.lo <= Len(e.u) /\ Len(e.u) <= cf.hi, "breached")
    [] name = "ValueLessThan" -> When(Less(e.v, cf.bound), "failure")
    [] name = "ValueAtMost" -> When(AtMost(e.v, cf.max), "failure")
    [] name = "ValueGreaterThan" -> When(Less(cf.bound, e.v), "failure")
    [] name = "ValueAtLeast" -> When(AtMost(cf.min, e.v), "failure")
    [] name = "ValueBetween" /\ cf.inclusive -> When(AtMost(cf.min, e.v) /\ AtMost(e.v, cf.max), "failure_inclusive")
    [] name = "ValueBetween" -> When(Less(cf.min, e.v) /\ Less(e.v, cf.max), "failure_exclusive")
    [] name = "HasAtLeast" -> When(Len(e.members) >= cf.lo, "failure")
    [] name = "HasAtMost" -> When(Len(e.members) <= cf.hi, "failure")
    [] name = "HasBetween" -> When(cf.lo <= Len(e.members) /\ Len(e.members) <= cf.hi, IF cf.lo = cf.hi THEN "exact" ELSE "range")
    [] name = "NotDuplicated" -> When(\A j \in 1..(e.at - 1) : ~Compare(cf.cmp, e.members[e.at], e.members[j]), "failure")
    [] OTHER -> When(\A i \in 1..Len(e.fields) : Compare(IF name = "ValuesEqual" THEN "value" ELSE IF name = "UnisEqual" THEN "u" ELSE cf.cmp, e.fields[i], e.fields[1]), "unequal")

T(s) == [s |-> s, k |-> "t"]
N(i) == [s |-> ToString(i), k |-> "n"]
V(v) == [s |-> TextOf(v), k |-> CASE v.k = "str" -> "t" [] v.k = "int" -> "n" [] OTHER -> "o"]
Labels(fs) == [i \in 1..Len(fs) |-> fs[i].label]
(* what the message may mention                                               *)
Keywords(name, e) ==
  CASE name \in {"MapEqual", "ValuesEqual", "UnisEqual"} ->
         << <<"labels", T(Join(SubSeq(Labels(e.fields), 1, Len(e.fields) - 1), ", "))>>, <<"last_label", T(e.fields[Len(e.fields)].label)>> >>
    [] name = "NotDuplicated" -> << <<"position", N(e.at)>>, <<"container_label", T(e.container)>> >>
    [] name \in {"HasAtLeast", "HasAtMost", "HasBetween"} -> << <<"child_label", T(e.child)>> >>
    [] OTHER -> <<>>
Attributes(name, cf) ==
  CASE name \in {"ShorterThan", "NoLongerThan"} -> << <<"maxlength", N(cf.hi)>> >>
    [] name = "LongerThan" -> << <<"minlength", N(cf.lo)>> >>
    [] name = "LengthBetween" -> << <<"minlength", N(cf.lo)>>, <<"maxlength", N(cf.hi)>> >>
    [] name \in {"ValueLessThan", "ValueGreaterThan"} -> << <<"boundary", V(cf.bound)>> >>
    [] name = "ValueAtMost" -> << <<"maximum", V(cf.max)>> >>
    [] name = "ValueAtLeast" -> << <<"minimum", V(cf.min)>> >>
    [] name = "ValueBetween" -> << <<"minimum", V(cf.min)>>, <<"maximum", V(cf.max)>> >>
    [] name = "HasAtLeast" -> << <<"minimum", N(cf.lo)>> >>
    [] name = "HasAtMost" -> << <<"maximum", N(cf.hi)>> >>
    [] name = "HasBetween" -> << <<"minimum", N(cf.lo)>>, <<"maximum", N(cf.hi)>> >>
    [] OTHER -> <<>>
NoTranslator == [sa |-> "", si |-> "", el |-> <<>>, b |-> ""]
Context(name, cf, e) ==
  [kw |-> Keywords(name, e), vattrs |-> Attributes(name, cf), state |-> [k |-> "none", items |-> <<>>, attrs |-> <<>>],
   eattrs |-> << <<"label", T(e.label)>>, <<"name", T(e.name)>>, <<"u", T(e.u)>>, <<"value", V(e.v)>> >>,
   ug |-> NoTranslator, ung |-> NoTranslator]
Said(name, cf, e, msgs, m) == Expand(Context(name, cf, e), IF Has(msgs, m) THEN Get(msgs, m) ELSE Defaults[name][m])
(* the messages recorded by one run on an element that had none               *)
Outcome(name, cf, e, msgs) ==
  LET m == Judge(name, cf, e) IN
  IF m = "" THEN [valid |-> TRUE, errors |-> <<>>] ELSE [valid |-> FALSE, errors |-> <<Said(name, cf, e, msgs, m).t>>]

(* HasBetween refuses to be nonsense                                          *)
Sensible(lo, hi) == 0 <= lo /\ lo <= hi
=============================================================================
