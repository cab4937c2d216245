------------------------------- MODULE Markup -------------------------------
(* Tags made from elements: the generation rules (C17), the scoping of        *)
(* settings and the life of tags (C18), the text of the result (C19).         *)
(*                                                                            *)
(* Attributes are sequences of [k, t, s]: t is "s" (text), "h" (markup, used  *)
(* as it is) or "n" (None).  Contents are [t, s] likewise, or "x": a stream   *)
(* of tags (Genshi only).  A bind is         *)
(* [t, name, u, true, mk, ms]: t "none", "one", "bool" or "array"; mk the     *)
(* kind of its members and ms their <<value, text>>.                          *)
EXTENDS Text, Scalars

Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {Ch(Uppers, i) : i \in 1..26} |-> Ch(Lowers, Find(Uppers, c))]
Lower(s) == Translate(s, LowerOf)

Yes == {"1", "true", "t", "on", "yes"}
No  == {"0", "false", "nil", "off", "no"}
(* a setting given as text: "T", "F" or "M" (as if it had not been given)     *)
Trool(s) == IF Lower(s) \in Yes THEN "T" ELSE IF Lower(s) \in No THEN "F" ELSE "M"

Autos == {"auto_name", "auto_value", "auto_domid", "auto_for", "auto_tabindex", "auto_filter"}
BuiltIn == [k \in Autos |-> IF k \in {"auto_name", "auto_value"} THEN "T" ELSE "F"]
BaseFrame == [auto_name |-> "True", auto_value |-> "True", auto_domid |-> "False", auto_for |-> "False",
              auto_tabindex |-> "False", auto_filter |-> "False", domid_format |-> "f_%s", tabindex |-> 0,
              filters |-> <<>>, ordered_attributes |-> "True", markup_wrapper |-> "Markup"]
Settings == DOMAIN BaseFrame

(* ------------------------------------------------------------ attributes -- *)
Absent == [k |-> "", t |-> "absent", s |-> ""]
Where(a, k) == IF \E i \in 1..Len(a) : a[i].k = k THEN CHOOSE i \in 1..Len(a) : a[i].k = k ELSE 0
Get(a, k) == IF Where(a, k) = 0 THEN Absent ELSE a[Where(a, k)]
Lacks(a, k) == Get(a, k).t \in {"absent", "n"}
Put(a, k, s) == IF Where(a, k) = 0 THEN Append(a, [k |-> k, t |-> "s", s |-> s])
                ELSE [a EXCEPT ![Where(a, k)] = [k |-> k, t |-> "s", s |-> s]]
Del(a, k) == IF Where(a, k) = 0 THEN a ELSE RemoveAtIdx(a, Where(a, k))
(* keyword names: trailing underscores are dropped                            *)
Keyed(a) == [i \in 1..Len(a) |-> [a[i] EXCEPT !.k = RStripSet(@, {"_"})]]

(* --------------------------------------------------------------- the rules *)
NameTags == {"input", "button", "select", "textarea", "form"}
ValueTags == {"button", "input", "option", "textarea"}
IdTags == {"input", "button", "select", "textarea"}
ForTags == {"label"}
IndexTags == IdTags

(* what is decided about one rule: whether it applies at all, and by force    *)
Toggle(key, a, f) ==
  LET here == IF Get(a, key).t = "absent" THEN "M" ELSE Trool(Get(a, key).s)
      scope == Trool(f[key])
      v == IF here # "M" THEN here ELSE IF scope # "M" THEN scope ELSE BuiltIn[key]
  IN [on |-> v = "T", forced |-> here = "T", a |-> Del(a, key)]

Wanted(t, k, tag, tags) == t.forced \/ (Lacks(t.a, k) /\ tag \in tags)

NameRule(tag, a, f, b) ==
  LET t == Toggle("auto_name", a, f) IN
  IF t.on /\ b.t # "none" /\ b.name # "" /\ Wanted(t, "name", tag, NameTags) THEN Put(t.a, "name", b.name) ELSE t.a

(* is the text among the members of an Array: compared as such a member would *)
MemberSchema(k) == [k |-> k, strip |-> TRUE, signed |-> TRUE, w |-> 0, kids |-> <<>>]
Among(b, s) == LET m == Adapt(MemberSchema(b.mk), TextPV(s)) IN \E i \in 1..Len(b.ms) : b.ms[i] = <<m.v, m.u>>
Equal(b, s) == IF b.t = "array" THEN Among(b, s) ELSE b.u = s
Mark(a, k, set) == IF set THEN Put(a, k, k) ELSE Del(a, k)

(* escaping                                                                   *)
ContentEscapes == [c \in {"&", "<", ">"} |-> CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] OTHER -> "&gt;"]
AttrEscapes == [c \in {"&", "<", ">", "\""} |-> CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] OTHER -> "&quot;"]
Escaped(s) == Translate(s, ContentEscapes)

ValueRule(tag, a, c, f, b) ==
  LET t == Toggle("auto_value", a, f)
      nothing == [a |-> t.a, c |-> c]
      type == IF Get(t.a, "type").t \in {"absent", "n"} THEN "" ELSE Get(t.a, "type").s
      v == Get(t.a, "value")
      filled == IF Lacks(t.a, "value") \/ t.forced THEN [a |-> Put(t.a, "value", b.u), c |-> c] ELSE nothing
  IN
  IF ~t.on \/ b.t = "none" \/ ~(t.forced \/ tag \in ValueTags) THEN nothing
  ELSE CASE tag = "input" /\ type = "checkbox" ->
              LET x == IF Lacks(t.a, "value") /\ b.t = "bool" THEN Put(t.a, "value", b.true) ELSE t.a IN
              IF Lacks(x, "value") THEN nothing ELSE [a |-> Mark(x, "checked", Equal(b, Get(x, "value").s)), c |-> c]
         [] tag = "input" /\ type = "radio" ->
              IF Lacks(t.a, "value") THEN nothing ELSE [a |-> Mark(t.a, "checked", Equal(b, v.s)), c |-> c]
         [] tag = "input" /\ type \in {"password", "file", "image"} ->
              IF t.forced THEN [a |-> Put(t.a, "value", b.u), c |-> c] ELSE nothing
         [] tag = "option" ->
              LET s == IF ~Lacks(t.a, "value") THEN v.s ELSE IF c.t = "n" THEN "" ELSE Strip(c.s) IN
              [a |-> Mark(t.a, "selected", ~(c.t = "x" /\ Lacks(t.a, "value")) /\ Equal(b, s)), c |-> c]
         [] tag = "textarea" ->
              IF c.t = "n" \/ t.forced THEN [a |-> t.a, c |-> [t |-> "h", s |-> Escaped(b.u)]] ELSE nothing
         [] OTHER -> filled

(* the id of a bound element, or of an unbound tag by its name; checkable     *)
(* inputs are told apart by their value                                       *)
IdChars == {Ch(Uppers, i) : i \in 1..26} \cup {Ch(Lowers, i) : i \in 1..26} \cup Digits \cup {"_", ":", ".", "-"}
RECURSIVE Kept(_, _)
Kept(s, cs) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in cs THEN Ch(s, 1) ELSE "") \o Kept(Drop(s, 1), cs)
TextOf(a, k) == IF Lacks(a, k) THEN "" ELSE Get(a, k).s
RawId(tag, a, b) ==
  LET basis == IF b.t # "none" THEN b.name ELSE TextOf(a, "name")
      suffix == IF tag = "input" /\ TextOf(a, "type") \in {"checkbox", "radio"} THEN Kept(TextOf(a, "value"), IdChars) ELSE ""
  IN IF basis = "" THEN "" ELSE basis \o (IF suffix = "" THEN "" ELSE "_" \o suffix)
Formatted(fmt, s) == LET i == Find(fmt, "%s") IN IF i = 0 THEN fmt ELSE Take(fmt, i - 1) \o s \o Drop(fmt, i + 1)

IdRule(tag, a, f, b) ==
  LET t == Toggle("auto_domid", a, f)
      id == RawId(tag, t.a, b)
  IN IF t.on /\ Wanted(t, "id", tag, IdTags) /\ id # "" THEN Put(t.a, "id", Formatted(f.domid_format, id)) ELSE t.a
ForRule(tag, a, f, b) ==
  LET t == Toggle("auto_for", a, f)
      id == RawId(tag, t.a, b)
  IN IF t.on /\ b.t # "none" /\ Wanted(t, "for", tag, ForTags) /\ id # "" THEN Put(t.a, "for", Formatted(f.domid_format, id)) ELSE t.a
IndexRule(tag, a, f) ==
  LET t == Toggle("auto_tabindex", a, f)
      uses == t.on /\ f.tabindex # 0 /\ Wanted(t, "tabindex", tag, IndexTags)
  IN [a |-> IF uses THEN Put(t.a, "tabindex", ToString(f.tabindex)) ELSE t.a,
      f |-> IF uses /\ f.tabindex > 0 THEN [f EXCEPT !.tabindex = @ + 1] ELSE f]

(* filters: the ones the drivers hand in, by name, with the tags they ask for *)
FilterTags(fn) == CASE fn = "mark" -> {"input", "label"} [] fn = "strip" -> {"button", "select", "div"} [] OTHER -> {}
FilterDo(fn, tag, a, c) ==
  CASE fn = "donut" -> [a |-> Put(a, "donut", "a&\"b<"), c |-> c]
    [] fn = "mark"  -> [a |-> a, c |-> IF c.t = "x" THEN c ELSE [t |-> "s", s |-> (IF c.t = "n" THEN "" ELSE c.s) \o "!" \o tag]]
    [] fn = "strip" -> [a |-> Del(a, "name"), c |-> c]
    [] fn = "seen"  -> [a |-> Put(a, "seen", ToString(Len(a))), c |-> c]
    [] fn = "body"  -> [a |-> a, c |-> [t |-> "h", s |-> "<b>&amp;</b>"]]
    [] fn = "bare"  -> [a |-> Del(Del(Del(Del(Del(a, "name"), "class"), "title"), "id"), "value"), c |-> c]
    [] OTHER        -> [a |-> Put(a, "tabindex", "9"), c |-> [t |-> "n", s |-> ""]]
RECURSIVE Filtered(_, _, _, _)
Filtered(fns, tag, a, c) ==
  IF fns = <<>> THEN [a |-> a, c |-> c]
  ELSE LET want == FilterTags(fns[1])
           r == IF want # {} /\ tag \notin want THEN [a |-> a, c |-> c] ELSE FilterDo(fns[1], tag, a, c)
       IN Filtered(Tail(fns), tag, r.a, r.c)
FilterRule(tag, a, c, f) ==
  LET t == Toggle("auto_filter", a, f) IN
  IF t.on THEN Filtered(f.filters, tag, t.a, c) ELSE [a |-> t.a, c |-> c]

(* a tag, its bind, given attributes and contents, the settings in effect     *)
Transform(tag, given, c, f, b) ==
  LET a1 == NameRule(tag, Keyed(given), f, b)
      v == ValueRule(tag, a1, c, f, b)
      a3 == IdRule(tag, v.a, f, b)
      a4 == ForRule(tag, a3, f, b)
      i == IndexRule(tag, a4, f)
      r == FilterRule(tag, i.a, v.c, i.f)
  IN [a |-> r.a, c |-> r.c, f |-> i.f]

(* ---------------------------------------------------------------- the text *)
(* attributes come as type, name, value, then by name                         *)
Order == "-.0123456789:ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
RECURSIVE NameLess(_, _)
NameLess(x, y) == IF y = "" THEN FALSE ELSE IF x = "" THEN TRUE
                  ELSE LET p == Find(Order, Ch(x, 1)) q == Find(Order, Ch(y, 1)) IN
                       IF p # q THEN p < q ELSE NameLess(Drop(x, 1), Drop(y, 1))
Rank(k) == CASE k = "type" -> 1 [] k = "name" -> 2 [] k = "value" -> 3 [] OTHER -> 4
Before(x, y) == Rank(x.k) < Rank(y.k) \/ (Rank(x.k) = Rank(y.k) /\ NameLess(x.k, y.k))
RECURSIVE Sorted(_)
Sorted(a) == IF a = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in 1..Len(a) : \A j \in 1..Len(a) : i = j \/ Before(a[i], a[j])
                  IN <<a[m]>> \o Sorted(RemoveAtIdx(a, m))
AttrText(x) == x.k \o "=\"" \o (CASE x.t = "n" -> "" [] x.t = "h" -> x.s [] OTHER -> Translate(x.s, AttrEscapes)) \o "\""
Opened(tag, a) == "<" \o tag \o Concat([i \in 1..Len(a) |-> " " \o AttrText(a[i])])
ContentText(c) == IF c.t = "n" THEN "" ELSE c.s

Dangles == {"input"}
Paired == {"form", "textarea", "select", "option"}
Closed(tag) == "</" \o tag \o ">"
Whole(tag, a, c, xml) ==
  IF ContentText(c) = "" /\ tag \notin Paired /\ xml THEN Opened(tag, a) \o " />"
  ELSE IF ContentText(c) = "" /\ tag \in Dangles THEN Opened(tag, a) \o ">"
  ELSE Opened(tag, a) \o ">" \o ContentText(c) \o Closed(tag)

(* reading it back: what a parser makes of an opening tag                     *)
RECURSIVE Unescape(_)
Entities == <<<<"&#39;", "'">>, <<"&#10;", "\n">>, <<"&#13;", "\r">>, <<"&#9;", "\t">>, <<"&amp;", "&">>, <<"&lt;", "<">>, <<"&gt;", ">">>, <<"&quot;", "\"">>>>
Unescape(s) == IF s = "" THEN ""
               ELSE IF Ch(s, 1) # "&" THEN Ch(s, 1) \o Unescape(Drop(s, 1))
               ELSE LET hits == {i \in 1..Len(Entities) : StartsWith(s, Entities[i][1])} IN
                    IF hits = {} THEN "?" \o Unescape(Drop(s, 1))
                    ELSE LET i == CHOOSE i \in hits : TRUE IN Entities[i][2] \o Unescape(Drop(s, Len(Entities[i][1])))
(* is s a way to write text t in content, or between double quotes            *)
WritesText(s, t) == Find(s, "<") = 0 /\ Unescape(s) = t
WritesQuoted(s, t) == WritesText(s, t) /\ Find(s, "\"") = 0
RECURSIVE ReadAttrs(_)
ReadAttrs(s) ==
  IF s = "" \/ ~StartsWith(s, " ") \/ StartsWith(s, " /") THEN [as |-> <<>>, rest |-> s]
  ELSE LET e == Find(s, "=\"") n == SubSeq(s, 2, e - 1) q == FindFrom(s, "\"", e + 2)
           more == ReadAttrs(Drop(s, q))
       IN [as |-> <<[k |-> n, s |-> Unescape(SubSeq(s, e + 2, q - 1))]>> \o more.as, rest |-> more.rest]
ReadTag(s) ==
  LET n == SpanFrom(s, {Ch(Lowers, i) : i \in 1..26} \cup Digits, 2)
      r == ReadAttrs(Drop(s, n))
      tag == SubSeq(s, 2, n)
      body == IF StartsWith(r.rest, ">") /\ EndsWith(s, Closed(tag))
              THEN SubSeq(r.rest, 2, Len(r.rest) - Len(Closed(tag))) ELSE ""
  IN [tag |-> tag, as |-> r.as, body |-> body,
      ends |-> IF r.rest = " />" THEN "self" ELSE IF r.rest = ">" THEN "dangling" ELSE "paired"]

(* ------------------------------------------------------- settings in scopes *)
Top(frames) == frames[Len(frames)]
WithTop(frames, f) == [frames EXCEPT ![Len(frames)] = f]
Known(sets) == \A i \in 1..Len(sets) : sets[i][1] \in Settings
RECURSIVE Set(_, _)
Set(f, sets) == IF sets = <<>> THEN f ELSE Set([f EXCEPT ![sets[1][1]] = sets[1][2]], Tail(sets))
(* what is in effect, however it was written                                  *)
InEffect(f) == [k \in Settings |-> IF k \in Autos THEN Trool(f[k]) ELSE f[k]]
=============================================================================
