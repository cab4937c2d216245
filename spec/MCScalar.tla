------------------------------ MODULE MCScalar ------------------------------
(* Adapts every text of several exhaustively enumerated families by every     *)
(* scalar type and checks the laws of set(); every input is emitted so that   *)
(* the real types are given the same.                                         *)
EXTENDS Scalars, Json

CONSTANTS Group, MaxLen

Base == [k |-> "str", name |-> None, kids |-> <<>>, strip |-> TRUE, opt |-> FALSE, prune |-> TRUE,
         max |-> 1024, min |-> "none", pol |-> "subset", dk |-> "none", dv |-> NonePV, signed |-> TRUE, w |-> 0,
         true |-> "1", false |-> "", tsyn |-> <<"on", "true", "True", "1">>,
         fsyn |-> <<"off", "false", "False", "0", "">>, vals |-> <<>>, jsep |-> ",", jre |-> FALSE, pred |-> "always"]
K(k) == [Base EXCEPT !.k = k]
Raw(s) == [s EXCEPT !.strip = FALSE]

RECURSIVE Texts(_, _)
Texts(alphabet, n) ==
  IF n = 0 THEN {""} ELSE LET shorter == Texts(alphabet, n - 1) IN shorter \cup {x \o c : x \in shorter, c \in alphabet}
Pick(ss) == ss    \* readability
Combine(a, b) == {x \o y : x \in a, y \in b}

Years  == {"0000", "0001", "1900", "2000", "2023", "2024", "9999", "202", "20x4"}
Months == {"00", "01", "02", "04", "06", "09", "11", "12", "13", "1"}
Days   == {"00", "01", "28", "29", "30", "31", "32", "1"}
DateTexts == Combine(Combine(Years, {"-"}), Combine(Combine(Months, {"-"}), Days))
HH == {"00", "09", "23", "24", "1", "-1"}
MM == {"00", "59", "60", "x0"}
TimeTexts == Combine(Combine(HH, {":"}), Combine(Combine(MM, {":"}), MM))
Wraps(S) == S \cup {x \o y : x \in S, y \in {" ", "\n", "x", "0"}} \cup {y \o x : x \in S, y \in {" ", "\t", "x", "0"}}

Enum(c, vs) == [Base EXCEPT !.k = "enum", !.kids = <<c>>, !.vals = vs]
Constr(c, p) == [Base EXCEPT !.k = "constr", !.kids = <<c>>, !.pred = p]

RECURSIVE CasesOf(_)
Cases == CasesOf(Group)
CasesOf(g) ==
  CASE g = "all" -> UNION {CasesOf(x) : x \in {"int", "str", "bool", "date", "time"}}
    [] g = "int" ->
         {<<s, TextPV(x)>> : s \in {K("int"), [K("int") EXCEPT !.signed = FALSE], [K("long") EXCEPT !.w = 3],
                                    Enum(K("int"), <<"i:1", "i:-2">>), Constr(K("int"), "even")},
                             x \in Texts({"1", "0", "-", "+", " ", "2"}, MaxLen)}
    [] g = "str" ->
         {<<s, TextPV(x)>> : s \in {K("str"), Raw(K("str")), Enum(K("str"), <<"s:a", "s:">>), Enum(Raw(K("str")), <<"s:a", "s: ">>),
                                    Constr(K("str"), "short")},
                             x \in Texts({"a", "b", " ", "\n"}, MaxLen)}
    [] g = "bool" ->
         {<<s, TextPV(x)>> : s \in {K("bool"), [K("bool") EXCEPT !.true = "yes", !.false = "no"],
                                    [K("bool") EXCEPT !.true = "1", !.false = "0", !.tsyn = <<"y">>, !.fsyn = <<"">>]},
                             x \in Wraps({"", "0", "1", "on", "off", "true", "True", "TRUE", "false", "False", "yes", "no", "y", "n", "None"})}
    [] g = "date" ->
         {<<s, TextPV(x)>> : s \in {K("date")}, x \in DateTexts}
         \cup {<<s, TextPV(x)>> : s \in {K("date"), Raw(K("date")), K("datetime"), K("time")},
                                  x \in Wraps({"2024-02-29", "2023-02-29", "2024-2-29", "20240229", "2024/02/29", "2024-02-29-", ""})}
    [] g = "time" ->
         {<<s, TextPV(x)>> : s \in {K("time")}, x \in TimeTexts}
         \cup {<<s, TextPV(x)>> : s \in {K("time"), Raw(K("time")), K("date")}, x \in Wraps({"12:34:56", "12:34", "12:34:61", ""})}
         \cup {<<s, TextPV(d \o m \o t)>> : s \in {K("datetime"), Raw(K("datetime"))},
                    d \in {"2024-02-29", "2023-02-29", "2023-12-31"}, m \in {" ", "T", "  ", "", "\n"},
                    t \in {"12:34:56", "24:00:00", "23:59:59", "12:34", "23:59:59 "}}
    [] OTHER -> {}

VARIABLES c, el, n
vars == <<c, el, n>>

PVOf(sc, v, u) ==                          \* the native value as an input
  LET b == SubSeq(v, FindFrom(v, ":", 1) + 1, Len(v)) IN
  CASE v = NoVal -> NonePV
    [] StartsWith(v, "s:") -> TextPV(b)
    [] StartsWith(v, "i:") -> [TextPV(b) EXCEPT !.t = "i", !.tr = b # "0"]
    [] StartsWith(v, "b:") -> [TextPV(b) EXCEPT !.t = "b", !.tr = b = "1"]
    [] OTHER -> [t |-> Take(v, FindFrom(v, ":", 1) - 1), s |-> b, tr |-> TRUE, ks |-> <<>>, l |-> <<>>, full |-> b]

Init == /\ c \in Cases /\ n = 0 /\ el = [v |-> NoVal, u |-> "", ok |-> FALSE]
Set == /\ n = 0 /\ n' = 1 /\ c' = c
       /\ LET a == Adapt(c[1], c[2]) IN el' = [v |-> a.v, u |-> a.u, ok |-> a.ok]
       /\ PrintT("RUN " \o ToJson([sc |-> c[1], inputs |-> <<c[2]>>]))
Again == /\ n = 1 /\ el.ok /\ n' = 2 /\ c' = c
         /\ LET a == Adapt(c[1], PVOf(c[1], el.v, el.u)) IN el' = [v |-> a.v, u |-> a.u, ok |-> a.ok]
Spec == Init /\ [][Set \/ Again]_vars

Leafs == IF c[1].kids = <<>> THEN c[1] ELSE c[1].kids[1]
Refusal == n = 1 /\ ~el.ok => el.v = NoVal /\ el.u = c[2].s
Fixpoint == [][Again => el' = el]_vars
(* canonical texts adapt to themselves *)
Canonical == n = 1 /\ el.ok =>
  LET a == Adapt(c[1], TextPV(el.u)) IN a.u = el.u /\ (a.ok => a.v = el.v \/ el.u = "")
Signs == n = 1 /\ el.ok /\ ~Leafs.signed => ~StartsWith(el.v, "i:-")
Synonyms == n = 1 /\ c[1].k = "bool" =>
  el.ok = (c[2].s \in {c[1].true, c[1].false} \cup Range2(c[1].tsyn) \cup Range2(c[1].fsyn))
Declared == n >= 1 /\ el.v # NoVal =>
  /\ c[1].k = "enum" => el.v \in Range2(c[1].vals)
  /\ c[1].k = "constr" => Admits(c[1].pred, el.v)
StripMatters == n = 1 /\ c[1].k \in {"str", "date", "time", "datetime"} =>
  (c[1].strip /\ el.ok => el.u = Strip(el.u)) /\ (~c[1].strip /\ el.ok => el.u = c[2].s)
=============================================================================
