----------------------------- MODULE ValidTrace -----------------------------
(* Validates recorded validate() runs: which validators were called, in which *)
(* order, the signals sent, the flags afterwards and the result.              *)
EXTENDS Validation, Json, IOUtils

VARIABLES l, flag
vars == <<l, flag>>
Log == ndJsonDeserialize(IOEnv.TRACE)

Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>
Calls(evs) == SelectSeq(evs, LAMBDA e : e[1] = "call")
(* a signal reports the result of its validator *)
Seen(r) == CASE r \in {"fill", "grow"} -> "T" [] OTHER -> r
EvText(e) == e[1] \o " " \o ToString(e[2]) \o " " \o e[3] \o " " \o ToString(e[4]) \o (IF e[1] = "sig" THEN " " \o Seen(e[5]) ELSE "")
Texts(evs) == [i \in 1..Len(evs) |-> EvText(evs[i])]
AllOf(nodes, f) == [i \in 1..Len(nodes) |-> AllValid(nodes, f, i)]
(* elements that do not exist yet have no observable flag *)
Observed(nodes, f, live) == [i \in 1..Len(live) |-> f[live[i]]]

Flags(nodes, f, r) ==
  Diff("valid flags", [j \in 1..Len(r.live) |-> f[r.live[j]]], r.flag)
  \o Diff("all_valid", [j \in 1..Len(r.live) |-> AllValid(nodes, f, r.live[j])], r.all)

Run(r) ==
  CASE r.op = "validate" ->
         LET s == ToEnd(Begin(r.nodes, flag, r.at, r.deep))
             evs == IF r.sig THEN s.evs ELSE Calls(s.evs)
         IN [flag |-> s.flag,
             fails |-> Diff("validator calls and signals", Texts(evs), r.evs)
                       \o Diff("result", IF s.phase = "raised" THEN "exc:Oops" ELSE IF s.res THEN "True" ELSE "False", r.res)
                       \o Diff("state", TRUE, r.state)
                       \o Flags(s.nodes, s.flag, r)]
    [] r.op = "set_all_valid" ->
         LET f == [i \in 1..Len(flag) |-> IF i \in {r.at} \cup Beneath(r.nodes, r.at) THEN r.to ELSE flag[i]] IN
         [flag |-> f, fails |-> Flags(r.nodes, f, r)]
    [] OTHER -> LET f == [i \in 1..Len(r.nodes) |-> "U"] IN [flag |-> f, fails |-> Flags(r.nodes, f, r)]

Init == l = 0 /\ flag = <<>>
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         n == Run(r)
     IN /\ l' = l + 1
        /\ flag' = n.flag
        /\ n.fails = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op, fails |-> n.fails]))
Spec == Init /\ [][Next]_vars
=============================================================================
