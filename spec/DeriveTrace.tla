----------------------------- MODULE DeriveTrace -----------------------------
(* Validates recorded histories of derivations, Form class statements and     *)
(* instantiations: each new class is what was asked for, and every class,     *)
(* instance and argument that existed before is still what it was.            *)
EXTENDS Derive, Json, IOUtils

VARIABLES l, cls, objs
vars == <<l, cls, objs>>
Log == ndJsonDeserialize(IOEnv.TRACE)

Diff(c, n, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> n, want |-> ToString(want), got |-> ToString(got)]>>
(* an observed class or instance *)
Seen(o) == [kind |-> o.kind, a |-> Range2(o.a), vs |-> o.vs, ds |-> o.ds, ps |-> Range2(o.ps), fs |-> Range2(o.fs)]
(* spec-side entry: what it is, and how others refer to it *)
Entry(c, i) == [c |-> c, id |-> Id(i), name |-> Attr(c, "name")]

Compare(what, i, want, o) ==
  LET got == Seen(o) IN
  Diff(what \o " attributes", i, want.a \ got.a, got.a \ want.a)
  \o Diff(what \o " validators", i, want.vs, got.vs)
  \o Diff(what \o " descent validators", i, want.ds, got.ds)
  \o Diff(what \o " properties", i, want.ps, got.ps)
  \o Diff(what \o " fields", i, want.fs, got.fs)
  \o (IF Cardinality({f[1] : f \in got.fs}) = Len(o.fs) THEN <<>> ELSE Diff(what \o " field names", i, "each name once", ToString(o.fs)))
All(what, want, seen) == FlatSeq([i \in 1..Len(want) |-> Compare(what, i, want[i], seen[i])])
Plain(entries) == [i \in 1..Len(entries) |-> entries[i].c]

(* classes made by one of the library's own cloners *)
MakesClass == {"named", "using", "validated_by", "including_validators", "descent_validated_by",
               "including_descent_validators", "with_properties", "valued", "to", "of", "subclass"}

Run(r, cs, os) ==
  LET op == r.op
      same(fs) == [cls |-> cs, objs |-> os, fails |-> fs]
      after(ncs, nos, fs) == [cls |-> ncs, objs |-> nos,
                              fails |-> fs \o All("class", Plain(ncs), r.cls) \o All("instance", nos, r.objs)]
      unchanged(fs) == after(cs, os, fs)
  IN
  CASE op.o = "start" ->
         LET es == [i \in 1..Len(r.cls) |-> Entry(Seen(r.cls[i]), i)] IN after(es, <<>>, <<>>)
    [] op.o \in MakesClass ->
         LET d == Derived(cs[op.i].c, op, cs) IN
         IF ~d.ok THEN unchanged(Diff("result", 0, "exc:TypeError", r.res) \o Diff("arguments", 0, TRUE, r.args))
         ELSE IF r.res # "ok" THEN [cls |-> cs, objs |-> os, fails |-> Diff("result", 0, "a new class", r.res)]
         ELSE after(Append(cs, Entry(d.c, Len(cs) + 1)), os,
                    Diff("derives from", 0, <<op.i, TRUE>>, r.sub)
                    \o Diff("arguments", 0, TRUE, r.args)
                    \o Diff("member fields", 0, MemberFields(cs[op.i].c, op, cs), Range2(r.mf)))
    [] op.o = "form" ->
         LET bs == [j \in 1..Len(op.bases) |-> cs[op.bases[j]].c.fs]
             named(ids) == [j \in 1..Len(ids) |-> <<cs[ids[j]].name, cs[ids[j]].id>>]
             decl == [j \in 1..Len(op.decl) |-> <<op.decl[j][1], cs[op.decl[j][2]].id>>]
             fs == FormFields(bs, named(op.own), decl)
         IN IF r.res # "ok" THEN [cls |-> cs, objs |-> os, fails |-> Diff("result", 0, "a new class", r.res)]
            ELSE LET c == [Seen(r.cls[Len(r.cls)]) EXCEPT !.fs = fs] IN
                 after(Append(cs, Entry(c, Len(cs) + 1)), os,
                       Diff("attributes left", 0, {}, Range2(r.left)) \o Diff("arguments", 0, TRUE, r.args)
                       \o Diff("keys of a new form", 0, {f[1] : f \in fs}, Range2(r.keys)))
    [] op.o = "new" ->
         LET d == Derived(cs[op.i].c, op, cs) IN
         IF ~d.ok THEN unchanged(Diff("result", 0, "exc:TypeError", r.res))
         ELSE IF r.res # "ok" THEN [cls |-> cs, objs |-> os, fails |-> Diff("result", 0, "a new element", r.res)]
         ELSE after(cs, Append(os, d.c), Diff("instance of", 0, TRUE, r.sub[2]) \o Diff("arguments", 0, TRUE, r.args))
    [] op.o = "inst_set" -> after(cs, [os EXCEPT ![op.i] = SetAttr(@, op.name, op.text)], <<>>)
    [] OTHER -> unchanged(<<>>)          \* the caller changes an argument it gave earlier

Init == l = 0 /\ cls = <<>> /\ objs = <<>>
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         n == Run(r, cls, objs)
     IN /\ l' = l + 1
        /\ cls' = n.cls
        /\ objs' = n.objs
        /\ n.fails = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> n.fails]))
Spec == Init /\ [][Next]_vars
=============================================================================
