----------------------------- MODULE MCCompound -----------------------------
(* Every interleaving of the first constructions, with what an observer       *)
(* outside the lock can bring about: when threads start and hooks go on.      *)
EXTENDS Compounds, Json, Text

CONSTANTS Wanted      \* texts like "A,A,B": which class each thread constructs
VARIABLE hist
vars == <<wants, pc, flag, lock, ran, built, hist>>
Num == [t1 |-> 1, t2 |-> 2, t3 |-> 3, t4 |-> 4]
Init == /\ \E w \in Wanted : wants = [t \in Threads |-> SplitBy(w, ",")[Num[t]]]
        /\ hist = <<>> /\ CInit
Seen(e) == hist' = Append(hist, e)
Step(t) == /\ UNCHANGED wants
           /\ \/ Look(t) /\ Seen(<<"start", t>>)
              \/ Inner(t) /\ Seen(<<"inner", t>>)
              \/ End(t) /\ Seen(<<"end", t>>)
              \/ Hidden(t) /\ UNCHANGED hist
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Terminates == <>Finished
(* the lock keeps hooks apart                                                 *)
Apart == \A t \in Threads : \A s \in Threads : (t # s /\ pc[t] \in {"begin", "inner", "end", "release"}) => pc[s] \notin {"begin", "inner", "end", "release"}
Emitted == Finished => PrintT("RUN " \o ToJson([wants |-> [i \in 1..Cardinality(Threads) |-> wants["t" \o ToString(i)]], ops |-> hist]))
=============================================================================
