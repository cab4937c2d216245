---------------------------- MODULE CompoundTrace ----------------------------
(* Recorded first constructions against the guarantee of C14: the hook of a   *)
(* class completes exactly once before any of its instances is made, and once *)
(* for the fresh class of each set of constructor overrides.                  *)
EXTENDS Text, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cls, ask
(* cls: <<[keys, seen, of, run, depth, done]>>; ask: thread -> its request     *)
vars == <<l, cls, ask>>

Diff(c, n, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> n, want |-> ToString(want), got |-> ToString(got)]>>
Class(keys, seen, of) == [keys |-> keys, seen |-> seen, of |-> of, run |-> "nobody", depth |-> 0, done |-> 0]
At(t) == IF t \in DOMAIN ask THEN ask[t] ELSE [c |-> 0, ov |-> FALSE, hand |-> FALSE, failed |-> FALSE]
Is(c, f(_)) == [i \in 1..Len(cls) |-> IF i = c THEN f(cls[i]) ELSE cls[i]]
WithAsk(t, a) == [x \in DOMAIN ask \cup {t} |-> IF x = t THEN a ELSE ask[x]]

Run(op) ==
  LET keep(fs) == [cls |-> cls, ask |-> ask, fails |-> fs]
      put(c, fs) == [cls |-> c, ask |-> ask, fails |-> fs]
      me == IF "t" \in DOMAIN op THEN At(op.t) ELSE At("")
  IN
  CASE op.o = "start" -> [cls |-> <<>>, ask |-> [t \in {} |-> 0], fails |-> <<>>]
    [] op.o = "class" -> put(Append(cls, Class(op.keys, op.seen, 0)), <<>>)
    [] op.o = "fresh" ->
         IF op.of < 1 THEN put(Append(cls, Class("?", FALSE, 0)), Diff("fresh class", op.c, "of a class asked for", "of none"))
         ELSE put(Append(cls, Class(cls[op.of].keys, cls[op.of].seen, op.of)), <<>>)
    [] op.o = "ask" -> [cls |-> cls, ask |-> WithAsk(op.t, [c |-> op.c, ov |-> op.ov # <<>>, hand |-> op.hand, failed |-> FALSE]), fails |-> <<>>]
    [] op.o = "begin" ->
         LET c == cls[op.c] IN
         IF c.run = op.t THEN put(Is(op.c, LAMBDA x : [x EXCEPT !.depth = @ + 1]), <<>>)      \* a base's hook within its own
         ELSE put(Is(op.c, LAMBDA x : [x EXCEPT !.run = op.t, !.depth = 1]),
                  Diff("hook run again", op.c, 0, c.done) \o Diff("hook run at the same time", op.c, "nobody", c.run))
    [] op.o = "end" ->
         put(Is(op.c, LAMBDA x : IF x.depth > 1 THEN [x EXCEPT !.depth = @ - 1]
                                 ELSE [x EXCEPT !.depth = 0, !.run = "nobody", !.done = @ + 1]), <<>>)
    [] op.o = "fail" ->
         [cls |-> Is(op.c, LAMBDA x : IF x.depth > 1 THEN [x EXCEPT !.depth = @ - 1] ELSE [x EXCEPT !.depth = 0, !.run = "nobody"]),
          ask |-> WithAsk(op.t, [me EXCEPT !.failed = TRUE]), fails |-> <<>>]
    [] op.o = "init" ->
         keep(IF cls[op.c].seen THEN Diff("instance made", op.c, <<"hook completed", 1, "nobody">>, <<"hook completed", cls[op.c].done, cls[op.c].run>>) ELSE <<>>)
    [] op.o = "built" ->
         LET c == cls[op.c] IN
         keep((IF me.ov THEN Diff("class of overrides", op.c, me.c, c.of) ELSE Diff("class", op.c, me.c, op.c))
              \o Diff("fields", op.c, c.keys, op.keys)
              \o Diff("parts", op.c, Range2(SplitBy(c.keys, ",")), Range2(SplitBy(op.parts, ",")))
              \o (IF c.seen THEN Diff("hook completed", op.c, 1, c.done) ELSE <<>>)
              \o Diff("overrides", op.c, op.given, op.got)
              \o Diff("original class", op.c, op.orig[1], op.orig[2]))
    [] op.o = "byhand" -> keep(Diff("hook by hand", op.c, 1, cls[op.c].done))
    [] op.o = "raised" -> keep(Diff("construction", me.c, IF me.failed THEN "Boom" ELSE "an element", op.exc))
    [] op.o = "stuck" -> keep(Diff("construction", me.c, "an element", "no answer"))
    [] op.o = "finish" -> keep(FlatSeq([i \in 1..Len(cls) |-> Diff("hook left running", i, "nobody", cls[i].run)]))
    [] OTHER -> keep(Diff("event", 0, "known", op.o))

Init == l = 0 /\ cls = <<>> /\ ask = [t \in {} |-> 0]
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         n == Run(r.op)
     IN /\ l' = l + 1
        /\ cls' = n.cls
        /\ ask' = n.ask
        /\ n.fails = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> n.fails]))
Spec == Init /\ [][Next]_vars
=============================================================================
