------------------------------ MODULE Compounds ------------------------------
(* First construction of compound classes by many threads (C14).              *)
(*                                                                            *)
(* A class has a hook, which may call its base's hook before its own work is  *)
(* done.  A thread constructing an instance looks at the flag of the class;   *)
(* if unset it takes the lock, looks again, runs the hook and sets the flag   *)
(* when the outermost hook is through; then it constructs.                    *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Classes, Nested, FlagAt, Rechecks
(* Nested: classes whose hook calls their base's; FlagAt: when the flag is    *)
(* set, "outer" (as it should be), "inner", "begin"; Rechecks: BOOLEAN        *)

VARIABLES wants, pc, flag, lock, ran, built    \* wants[t]: the class t constructs
cvars == <<wants, pc, flag, lock, ran, built>>
CInit == /\ pc = [t \in Threads |-> "start"]
         /\ flag = [c \in Classes |-> FALSE]
         /\ lock = "nobody"
         /\ ran = [c \in Classes |-> <<0, 0>>]      \* hooks begun, hooks completed
         /\ built = [t \in Threads |-> "no"]        \* "ready", "early"
W(t) == wants[t]
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Look(t) == /\ pc[t] = "start" /\ To(t, IF flag[W(t)] THEN "build" ELSE "want") /\ UNCHANGED <<flag, lock, ran, built>>
Acquire(t) == /\ pc[t] = "want" /\ lock = "nobody" /\ lock' = t
              /\ To(t, IF Rechecks /\ flag[W(t)] THEN "release" ELSE "begin") /\ UNCHANGED <<flag, ran, built>>
Begin(t) == /\ pc[t] = "begin" /\ ran' = [ran EXCEPT ![W(t)][1] = @ + 1]
            /\ flag' = IF FlagAt = "begin" THEN [flag EXCEPT ![W(t)] = TRUE] ELSE flag
            /\ To(t, IF W(t) \in Nested THEN "inner" ELSE "end") /\ UNCHANGED <<lock, built>>
Inner(t) == /\ pc[t] = "inner" /\ flag' = IF FlagAt = "inner" THEN [flag EXCEPT ![W(t)] = TRUE] ELSE flag
            /\ To(t, "end") /\ UNCHANGED <<lock, ran, built>>
End(t) == /\ pc[t] = "end" /\ ran' = [ran EXCEPT ![W(t)][2] = @ + 1] /\ flag' = [flag EXCEPT ![W(t)] = TRUE]
          /\ To(t, "release") /\ UNCHANGED <<lock, built>>
Release(t) == /\ pc[t] = "release" /\ lock' = "nobody" /\ To(t, "build") /\ UNCHANGED <<flag, ran, built>>
Build(t) == /\ pc[t] = "build" /\ built' = [built EXCEPT ![t] = IF ran[W(t)] = <<1, 1>> THEN "ready" ELSE "early"]
            /\ To(t, "done") /\ UNCHANGED <<flag, lock, ran>>
Hidden(t) == Acquire(t) \/ Begin(t) \/ Release(t) \/ Build(t)

OnceOnly == \A c \in Classes : ran[c][1] <= 1
NeverEarly == \A t \in Threads : built[t] # "early"
Finished == \A t \in Threads : pc[t] = "done"
=============================================================================
