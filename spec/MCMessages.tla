----------------------------- MODULE MCMessages -----------------------------
(* Every way of providing a name, a count and translators, on an element      *)
(* Depth containers deep; then notes, one after the other.                    *)
EXTENDS Messages, Json

CONSTANTS Depth, Notes, Free      \* Free: how many provider groups vary at once
VARIABLES c, had, done
vars == <<c, had, done>>

T(s) == [s |-> s, k |-> "t"]
N(s) == [s |-> s, k |-> "n"]
ProviderNames == {"kw", "item", "attr", "validator", "element"}
Val == [kw |-> T("K"), item |-> T("I"), attr |-> T("A"), validator |-> T("V"), element |-> T("E")]
Num == [kw |-> N("1"), item |-> T("1"), attr |-> N("2"), validator |-> T("many"), element |-> N("1")]
Pairs(who, here, num) == (IF who \in here THEN << <<"alpha", Val[who]>> >> ELSE <<>>) \o (IF who \in num THEN << <<"size", Num[who]>> >> ELSE <<>>)
Els(S) == [i \in 1..Depth |-> IF i \in S THEN "U" \o ToString(i) ELSE ""]
NEls(S) == [i \in 1..Depth |-> IF i \in S THEN "P" \o ToString(i) ELSE ""]
Where(sa, si, b, els) == [sa |-> sa, si |-> si, b |-> b, el |-> els]
Kind(here, num, ug, ung) ==
  LET items == "item" \in here \cup num \/ ug.si # "" \/ ung.si # ""
      attrs == "attr" \in here \cup num \/ ug.sa # "" \/ ung.sa # ""
  IN IF items /\ attrs THEN "both" ELSE IF items THEN "dict" ELSE IF attrs THEN "obj" ELSE "none"
Context(here, num, ug, ung) ==
  [kw |-> Pairs("kw", here, num), vattrs |-> Pairs("validator", here, num),
   eattrs |-> << <<"name", T("nm")>>, <<"label", T("nm")>> >> \o Pairs("element", here, num),
   state |-> [k |-> Kind(here, num, ug, ung), items |-> Pairs("item", here, num), attrs |-> Pairs("attr", here, num)],
   ug |-> ug, ung |-> ung]
UgSet == {Where(sa, si, b, Els(S)) : sa \in {"", "USA"}, si \in {"", "USI"}, b \in {"", "UB"}, S \in SUBSET (1..Depth)}
UngSet == {Where(sa, si, b, NEls(S)) : sa \in {"", "PSA"}, si \in {"", "PSI"}, b \in {"", "PB"}, S \in SUBSET (1..Depth)}
NoUg == Where("", "", "", Els({}))
NoUng == Where("", "", "", NEls({}))
OneU == Where("", "", "UB", Els({2}))

Str(s) == [f |-> "s", a |-> s, b |-> "", key |-> "", call |-> FALSE]
Plural(call) == [f |-> "t", a |-> "one %(alpha)s", b |-> "%(size)s of %(label)s", key |-> "size", call |-> call]
Msgs == {Str("m"), Str("%(label)s %(alpha)s"), Plural(FALSE), Plural(TRUE)}

Contexts ==
  {Context(h, n, NoUg, NoUng) : h \in SUBSET ProviderNames, n \in SUBSET ProviderNames}
  \cup {Context(h, n, u, NoUng) : h \in {{"kw"}, {"item", "element"}}, n \in {{"element"}, {"attr"}}, u \in UgSet}
  \cup {Context(h, {"element"}, u, p) : h \in {{"validator"}}, u \in {NoUg, OneU}, p \in UngSet}
  \cup (IF Free < 2 THEN {} ELSE {Context(h, {"kw"}, u, p) : h \in {{"kw"}, {"attr", "element"}}, u \in UgSet, p \in UngSet})
  \cup (IF Free < 2 THEN {} ELSE {Context(h, n, OneU, NoUng) : h \in SUBSET ProviderNames, n \in SUBSET ProviderNames})

Init == c \in Contexts /\ had = [e |-> <<>>, w |-> <<>>] /\ done = <<>>
Note == /\ Len(done) < Notes
        /\ \E m \in Msgs, kind \in {"error", "warning"} :
             LET x == Expand(c, m) IN
             /\ done' = Append(done, [kind |-> kind, msg |-> m])
             /\ had' = IF ~x.ok THEN had ELSE IF kind = "error" THEN [had EXCEPT !.e = Record(@, x.t)] ELSE [had EXCEPT !.w = Record(@, x.t)]
             /\ UNCHANGED c
Next == Note
Spec == Init /\ [][Next]_vars

(* what was recorded stays, in order, and nothing is recorded twice           *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Kept == [][Prefix(had.e, had'.e) /\ Prefix(had.w, had'.w)]_vars
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
OnceEach == Distinct(had.e) /\ Distinct(had.w)
(* the order of providers, said a second way                                  *)
First == [kw |-> {}, item |-> {"kw"}, attr |-> {"kw", "item"}, validator |-> {"kw", "item", "attr"}, element |-> {"kw", "item", "attr", "validator"}]
In(who, n) == Has(CASE who = "kw" -> c.kw [] who = "item" -> c.state.items [] who = "attr" -> c.state.attrs [] who = "validator" -> c.vattrs [] OTHER -> c.eattrs, n)
Precedence == done = <<>> => \A who \in ProviderNames : In(who, "alpha") /\ (\A w \in First[who] : ~In(w, "alpha")) => Asked(c, "alpha") = Val[who]
Unknown == done = <<>> => ((\A who \in ProviderNames : ~In(who, "alpha")) <=> ~Expand(c, Str("%(alpha)s")).ok)
(* nobody translates: the text is as written; a nearer translator wins        *)
Untranslated == (done = <<>> /\ c.ug = NoUg /\ In("kw", "alpha")) => Expand(c, Str("%(label)s %(alpha)s")) = Fine("nm K")
Nearest == done = <<>> => \A i \in 1..Depth : (c.ug.sa = "" /\ c.ug.si = "" /\ c.ug.el[i] # "" /\ \A j \in 1..(i - 1) : c.ug.el[j] = "") => Translator(c.ug) = c.ug.el[i]
StateFirst == done = <<>> => (c.ug.sa # "" => Translator(c.ug) = c.ug.sa) /\ (c.ug.sa = "" /\ c.ug.si # "" => Translator(c.ug) = c.ug.si)
(* exactly one of the two forms is used, by the count                         *)
OneForm == done = <<>> /\ Translator(c.ug) = "" /\ Translator(c.ung) = "" /\ In("kw", "alpha") =>
             Expand(c, Plural(FALSE)).t = (IF Count(c, "size") = "1" THEN "one K" ELSE IF Asked(c, "size").k = "none" THEN "exc:KeyError" ELSE Asked(c, "size").s \o " of nm")
(* a callable is worth what it returns                                        *)
Called == done = <<>> => Expand(c, Plural(TRUE)) = Expand(c, Plural(FALSE))
Emitted == Len(done) = Notes => PrintT("RUN " \o ToJson([depth |-> Depth, c |-> c, notes |-> done]))
=============================================================================
