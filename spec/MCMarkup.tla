------------------------------ MODULE MCMarkup ------------------------------
(* The decision table of the generation rules, and small histories of scopes  *)
(* and tags, over every combination within the bounds.                        *)
EXTENDS Markup, Json

CONSTANTS Mode, Tags, Types, Values, TagLevel, ScopeLevel, Bodies, Depth
VARIABLES gens, hist, shadow
vars == <<gens, hist, shadow>>

Attr(k, s) == IF s = "~" THEN <<>> ELSE <<[k |-> k, t |-> "s", s |-> s]>>
One(name, u) == [t |-> "one", name |-> name, u |-> u, true |-> "", mk |-> "str", ms |-> <<>>]
Binds == <<
  [d |-> [k |-> "none", name |-> "nm", v |-> ""], b |-> [One("", "") EXCEPT !.t = "none"]],
  [d |-> [k |-> "str", name |-> "nm", v |-> "v"], b |-> One("nm", "v")],
  [d |-> [k |-> "str", name |-> "n&\"<", v |-> "x<&\">'"], b |-> One("n&\"<", "x<&\">'")],
  [d |-> [k |-> "str", name |-> "nm", v |-> ""], b |-> One("nm", "")],
  [d |-> [k |-> "bool", name |-> "nm", v |-> "v", true |-> "v"], b |-> [One("nm", "v") EXCEPT !.t = "bool", !.true = "v"]],
  [d |-> [k |-> "bool", name |-> "nm", v |-> "", true |-> "v"], b |-> [One("nm", "") EXCEPT !.t = "bool", !.true = "v"]],
  [d |-> [k |-> "array", name |-> "nm", m |-> "str", v |-> <<"w", "v">>],
   b |-> [One("nm", "[u'w', u'v']") EXCEPT !.t = "array", !.ms = << <<"s:w", "w">>, <<"s:v", "v">> >>]],
  [d |-> [k |-> "array", name |-> "nm", m |-> "str", v |-> <<>>], b |-> [One("nm", "[]") EXCEPT !.t = "array"]] >>

Rules == <<"auto_name", "auto_value", "auto_domid", "auto_for", "auto_tabindex", "auto_filter">>
MadeBy == [auto_name |-> "name", auto_value |-> "value", auto_domid |-> "id", auto_for |-> "for", auto_tabindex |-> "tabindex", auto_filter |-> "donut"]
TagsOf(r) == CASE r = "auto_name" -> NameTags [] r = "auto_value" -> ValueTags [] r = "auto_domid" -> IdTags
               [] r = "auto_for" -> ForTags [] r = "auto_tabindex" -> IndexTags [] OTHER -> Tags
Body(s) == IF s = "~" THEN [t |-> "n", s |-> ""] ELSE [t |-> "s", s |-> s]
Fresh(xml, sets) == [xml |-> xml, frames |-> <<Set(BaseFrame, sets)>>, open |-> <<>>]
Always == << <<"tabindex", 5>>, <<"filters", <<"donut">> >> >>
New(xml, sets) == [o |-> "new", markup |-> IF xml THEN "xhtml" ELSE "html", sets |-> sets]
Call(o, tag, n, d, as, c, by) == [o |-> o, name |-> tag, tag |-> n, bind |-> d, attrs |-> as, contents |-> c, by |-> by]

(* ---- the table: one rule varied at every level, one tag made               *)
Pick(tag, r, i) ==
  \E type \in (IF tag = "input" THEN Types ELSE {"~"}) : \E v \in Values :
  \E tl \in TagLevel : \E sl \in ScopeLevel : \E c \in (IF tag \in {"textarea", "option", "label"} THEN Bodies ELSE {"~"}) : \E own \in {"~", "own"} :
    LET xml == (i + r) % 2 = 0
        sets == << <<Rules[r], sl>> >> \o Always
        key == MadeBy[Rules[r]]
        as == Attr("type", type) \o Attr("value", v) \o Attr(Rules[r], tl) \o (IF key # "value" THEN Attr(key, own) ELSE <<>>)
        g == Fresh(xml, sets)
        w == Transform(tag, as, Body(c), Top(g.frames), Binds[i].b)
    IN /\ own = "own" => key # "value"
       /\ gens' = [g EXCEPT !.frames = WithTop(@, w.f)]
       /\ shadow' = [tag |-> tag, type |-> type, rule |-> Rules[r], key |-> key, here |-> Trool(tl), scope |-> Trool(sl), given |-> as,
                    in |-> Body(c), bind |-> Binds[i].b, out |-> Sorted(w.a), body |-> w.c, xml |-> xml]
       /\ hist' = <<New(xml, sets), Call("call", tag, 0, Binds[i].d, as, Body(c), (i + r) % 3 = 0)>>

T == Mode = "table" /\ hist # <<>>
On == shadow.here = "T" \/ (shadow.here = "M" /\ (shadow.scope = "T" \/ (shadow.scope = "M" /\ BuiltIn[shadow.rule] = "T")))
Forced == shadow.here = "T"
(* turned off: what the rule makes is as it was given                         *)
Off == T => (~On => Get(shadow.out, shadow.key) = Get(shadow.given, shadow.key) \/ (shadow.key = "value" /\ shadow.rule # "auto_value"))
(* a given attribute stays unless forced                                      *)
Kept2 == T => (~Forced /\ ~Lacks(shadow.given, shadow.key) /\ shadow.rule # "auto_filter" => Get(shadow.out, shadow.key) = Get(shadow.given, shadow.key))
(* nothing is added to tags that do not support it                            *)
Supported == T => (~Forced /\ shadow.tag \notin TagsOf(shadow.rule) => Get(shadow.out, shadow.key) = Get(shadow.given, shadow.key))
NoControls == T => \A i \in 1..Len(shadow.out) : shadow.out[i].k \notin Autos
Checks == T => (shadow.tag = "input" /\ shadow.type \in {"radio", "checkbox"} /\ shadow.bind.t # "none" /\ shadow.rule # "auto_value" /\ ~Lacks(shadow.given, "value")
          => ((Get(shadow.out, "checked").t = "s") <=>
              (IF shadow.bind.t = "array" THEN \E i \in 1..Len(shadow.bind.ms) : shadow.bind.ms[i][2] = Get(shadow.given, "value").s
               ELSE shadow.bind.u = Get(shadow.given, "value").s)))
Bodied == T => (shadow.tag = "textarea" /\ shadow.bind.t # "none" /\ On /\ shadow.rule = "auto_value" /\ (shadow.in.t = "n" \/ Forced)
          => Unescape(shadow.body.s) = shadow.bind.u)
(* a parser gets back what was meant                                          *)
ReadsBack == T => LET p == ReadTag(Whole(shadow.tag, shadow.out, shadow.body, shadow.xml)) IN
             /\ p.tag = shadow.tag
             /\ p.as = [i \in 1..Len(shadow.out) |-> [k |-> shadow.out[i].k, s |-> shadow.out[i].s]]
             /\ p.body = ContentText(shadow.body)
Named == T => Len(shadow.out) = Cardinality({shadow.out[i].k : i \in 1..Len(shadow.out)})

(* ---- histories of scopes                                                   *)
Options == << << <<"auto_tabindex", "on">> >>, << <<"tabindex", 3>> >>, << <<"auto_name", "off">>, <<"tabindex", -1>> >>,
              << <<"auto_tabindex", "auto">>, <<"domid_format", "%s_">> >>, <<>> >>
Begin == \E i \in 1..Len(Options) :
           /\ gens' = [gens EXCEPT !.frames = Append(@, Set(Top(@), Options[i]))]
           /\ shadow' = Append(shadow, InEffect(Top(gens.frames)))
           /\ hist' = Append(hist, [o |-> "begin", sets |-> Options[i]])
Change == \E i \in 1..Len(Options) :
           /\ gens' = [gens EXCEPT !.frames = WithTop(@, Set(Top(@), Options[i]))]
           /\ hist' = Append(hist, [o |-> "set", sets |-> Options[i]]) /\ UNCHANGED shadow
End == /\ IF Len(gens.frames) = 1 THEN UNCHANGED <<gens, shadow>>
          ELSE /\ gens' = [gens EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
               /\ shadow' = SubSeq(shadow, 1, Len(shadow) - 1)
               /\ Assert(InEffect(Top(gens'.frames)) = shadow[Len(shadow)], "end() restores the settings before begin()")
       /\ hist' = Append(hist, [o |-> "end", sets |-> <<>>])
Bad == /\ hist' = Append(hist, [o |-> IF Len(hist) % 2 = 0 THEN "set" ELSE "begin", sets |-> << <<"auto_name", "off">>, <<"xyzzy", "on">> >>])
       /\ UNCHANGED <<gens, shadow>>
Make == \E o \in {"on", "~"} :
          LET as == Attr("auto_tabindex", o) \o Attr("title", "t")
              w == Transform("input", as, Body("~"), Top(gens.frames), Binds[2].b)
          IN /\ gens' = [gens EXCEPT !.frames = WithTop(@, w.f)]
             /\ hist' = Append(hist, Call("call", "input", 0, Binds[2].d, as, Body("~"), FALSE))
             /\ UNCHANGED shadow
S == Mode = "scopes"
Deep == Len(hist) <= Depth
Stacked == S => Len(shadow) = Len(gens.frames) - 1

Init == IF S THEN gens = Fresh(TRUE, <<>>) /\ hist = <<New(TRUE, <<>>)>> /\ shadow = <<>> ELSE gens \in {<<t, r, i>> : t \in Tags, r \in 1..6, i \in 1..Len(Binds)} /\ hist = <<>> /\ shadow = <<>>
Next == IF S THEN Len(hist) < Depth /\ (Begin \/ Change \/ End \/ Bad \/ Make) ELSE hist = <<>> /\ Pick(gens[1], gens[2], gens[3])
Spec == Init /\ [][Next]_vars
Emitted == (T \/ (S /\ Len(hist) = Depth)) => PrintT("RUN " \o ToJson([ops |-> hist]))
=============================================================================
