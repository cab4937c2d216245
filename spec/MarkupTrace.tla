----------------------------- MODULE MarkupTrace -----------------------------
(* Recorded histories of generators and tags against Markup.                  *)
EXTENDS Markup, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gens
(* gens: <<[xml, frames, open, tags]>>; open: the tags open()ed, oldest first *)
(* (numbers in tags); tags: <<[tag, c]>>                                      *)
vars == <<l, gens>>

Diff(c, n, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> n, want |-> ToString(want), got |-> ToString(got)]>>
Same(x, y) == IF x.t = "h" /\ y.t = "s" THEN x.s = y.s ELSE x = y

(* the tag a generator hands out for a name: the one open, or a new one       *)
Handed(g, tag) == LET os == Filter(g.open, LAMBDA i : g.tags[i].tag = tag) IN
                  IF os # <<>> THEN os[Len(os)] ELSE Len(g.tags) + 1
HandOut(g, tag) == IF Handed(g, tag) <= Len(g.tags) THEN g ELSE [g EXCEPT !.tags = Append(@, [tag |-> tag, c |-> ""])]

Rendered(g, tag, op) ==
  LET r == Transform(tag, op.attrs, op.contents, Top(g.frames), op.bind) IN
  [a |-> IF Top(g.frames).ordered_attributes = "True" THEN Sorted(r.a) ELSE r.a, c |-> r.c, g |-> [g EXCEPT !.frames = WithTop(@, r.f)]]
Exact(g) == Top(g.frames).ordered_attributes = "True"

Run(r, gs) ==
  LET op == r.op
      g == IF "g" \in DOMAIN op /\ op.g <= Len(gs) THEN gs[op.g] ELSE [xml |-> TRUE]
      keep(fs) == [gens |-> gs, fails |-> fs]
      put(x, fs) == [gens |-> [gs EXCEPT ![op.g] = x], fails |-> fs]
      wrapped(x) == Diff("kind of result", op.g, Top(x.frames).markup_wrapper, r.wrap)
      quiet(x) == Diff("result", op.g, "", r.res) \o wrapped(x)
      text(x, whole, tag, a, c, ends) ==
        IF Exact(x) THEN Diff("text", op.g, whole, r.res)
        ELSE LET p == ReadTag(IF ends = "open" THEN r.res \o Closed(tag) ELSE r.res) q == ReadTag(IF ends = "open" THEN whole \o Closed(tag) ELSE whole) IN
             Diff("tag", op.g, <<q.tag, q.body, q.ends>>, <<p.tag, p.body, p.ends>>)
             \o Diff("attributes", op.g, Range2(q.as), Range2(p.as)) \o Diff("number of attributes", op.g, Len(q.as), Len(p.as))
  IN
  CASE op.o = "start" -> [gens |-> <<>>, fails |-> <<>>]
    [] op.o = "new" ->
         IF op.markup \notin {"html", "xhtml", "xml"} THEN keep(Diff("result", 0, "exc:TypeError", r.res))
         ELSE IF ~Known(op.sets) THEN keep(Diff("refused", 0, TRUE, r.res \in {"exc:KeyError", "exc:TypeError"}))
         ELSE [gens |-> Append(gs, [xml |-> op.markup # "html", frames |-> <<Set(BaseFrame, op.sets)>>, open |-> <<>>, tags |-> <<>>]),
               fails |-> Diff("result", 0, "ok", r.res)]
    [] op.o = "begin" ->
         IF ~Known(op.sets) THEN keep(Diff("refused", op.g, TRUE, r.res \in {"exc:KeyError", "exc:TypeError"}))
         ELSE LET x == [g EXCEPT !.frames = Append(@, Set(Top(@), op.sets))] IN put(x, quiet(x))
    [] op.o = "set" ->
         IF ~Known(op.sets) THEN keep(Diff("refused", op.g, TRUE, r.res \in {"exc:KeyError", "exc:TypeError"}))
         ELSE LET x == [g EXCEPT !.frames = WithTop(@, Set(Top(@), op.sets))] IN put(x, quiet(x))
    [] op.o = "update" ->         \* generator[key] = value
         IF ~Known(op.sets) THEN keep(Diff("refused", op.g, TRUE, r.res \in {"exc:KeyError", "exc:TypeError"}))
         ELSE put([g EXCEPT !.frames = WithTop(@, Set(Top(@), op.sets))], Diff("result", op.g, "ok", r.res))
    [] op.o = "end" ->
         IF Len(g.frames) = 1 THEN keep(Diff("result", op.g, "exc:RuntimeError", r.res))
         ELSE LET x == [g EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)] IN put(x, quiet(x))
    [] op.o = "get" ->
         LET x == HandOut(g, Lower(op.tag)) IN
         put(x, Diff("tag object", op.g, Handed(g, Lower(op.tag)), r.tag) \o Diff("contents", op.g, x.tags[Handed(g, Lower(op.tag))].c, r.contents))
    [] op.o = "call" ->           \* a held tag, or one by name
         LET i == IF op.tag > 0 THEN op.tag ELSE Handed(g, Lower(op.name))
             held == i <= Len(g.tags)
             tag == IF held THEN g.tags[i].tag ELSE Lower(op.name)
             w == Rendered(g, tag, op)
             x == IF held THEN [w.g EXCEPT !.tags[i].c = ContentText(w.c)] ELSE w.g
         IN put(x, text(x, Whole(tag, w.a, w.c, g.xml), tag, w.a, w.c, "whole") \o wrapped(x)
                   \o (IF op.tag > 0 THEN Diff("contents", op.g, ContentText(w.c), r.contents) ELSE <<>>))
    [] op.o = "open" ->
         LET tag == g.tags[op.tag].tag
             w == Rendered(g, tag, op)
             x == [w.g EXCEPT !.tags[op.tag].c = ContentText(w.c),
                              !.open = IF op.tag \in Range2(@) THEN @ ELSE Append(@, op.tag)]
         IN put(x, text(x, Opened(tag, w.a) \o ">", tag, w.a, w.c, "open") \o wrapped(x) \o Diff("contents", op.g, ContentText(w.c), r.contents))
    [] op.o = "close" ->
         LET x == [g EXCEPT !.open = Filter(@, LAMBDA i : i # op.tag)] IN
         put(x, Diff("text", op.g, Closed(g.tags[op.tag].tag), r.res) \o wrapped(x))
    [] op.o = "escaped" ->
         keep((IF WritesText(op.x, op.u) THEN <<>> ELSE Diff("escaped text", 0, op.u, op.x))
              \o (IF WritesQuoted(op.xa, op.u) THEN <<>> ELSE Diff("escaped attribute", 0, op.u, op.xa)))
    [] OTHER -> keep(Diff("operation", 0, "known", op.o))

Names == <<"auto_name", "auto_value", "auto_domid", "auto_for", "auto_tabindex", "auto_filter",
           "domid_format", "tabindex", "filters", "ordered_attributes", "markup_wrapper">>
(* every generator keeps its own settings                                     *)
Observed(gs, seen) ==
  FlatSeq([i \in 1..Len(gs) |->
    IF i > Len(seen) THEN Diff("generator", i, "there", "missing")
    ELSE LET want == InEffect(Top(gs[i].frames)) got == InEffect(seen[i]) IN
         FlatSeq([k \in 1..Len(Names) |-> Diff("setting " \o Names[k], i, want[Names[k]], got[Names[k]])])])

Init == l = 0 /\ gens = <<>>
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         n == Run(r, gens)
         fs == n.fails \o Observed(n.gens, r.settings)
     IN /\ l' = l + 1
        /\ gens' = n.gens
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
