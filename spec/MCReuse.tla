------------------------------- MODULE MCReuse -------------------------------
(***************************************************************************)
(* A prover or verifier object used for several calls, one after the other *)
(* and at the same time. A call absorbs the messages of its argument into  *)
(* a transcript and draws challenges, which are the transcript's history.  *)
(* Design "fresh" makes the transcript for the call, "reset" keeps one in  *)
(* the object and empties it at the start of a call, "kept" never empties  *)
(* it. What a call returns has to be a function of its argument.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Design, Callers, Args, MaxCalls
VARIABLES own, shared, pc, arg, drawn, results
vars == << own, shared, pc, arg, drawn, results >>

Rounds == 2
Msg(a, k) == << "m", a, k >>
Total == Len(results) + Cardinality({c \in Callers : pc[c] # "idle"})
T(c) == IF Design = "fresh" THEN own[c] ELSE shared
Put(c, t) == IF Design = "fresh" THEN own' = [own EXCEPT ![c] = t] /\ UNCHANGED shared
                                 ELSE shared' = t /\ UNCHANGED own

Init == /\ own = [c \in Callers |-> <<>>] /\ shared = <<>> /\ pc = [c \in Callers |-> "idle"]
        /\ arg = [c \in Callers |-> 0] /\ drawn = [c \in Callers |-> <<>>] /\ results = <<>>
Start(c) == /\ pc[c] = "idle" /\ Total < MaxCalls
            /\ \E a \in Args : arg' = [arg EXCEPT ![c] = a]
            /\ pc' = [pc EXCEPT ![c] = "absorb"] /\ drawn' = [drawn EXCEPT ![c] = <<>>]
            /\ Put(c, IF Design = "kept" THEN shared ELSE <<>>) /\ UNCHANGED results
Absorb(c) == /\ pc[c] = "absorb"
             /\ Put(c, Append(T(c), Msg(arg[c], Len(drawn[c]) + 1)))
             /\ pc' = [pc EXCEPT ![c] = "draw"] /\ UNCHANGED << arg, drawn, results >>
Draw(c) == /\ pc[c] = "draw"
           /\ drawn' = [drawn EXCEPT ![c] = Append(@, T(c))]
           /\ Put(c, Append(T(c), "c"))
           /\ pc' = [pc EXCEPT ![c] = IF Len(drawn[c]) + 1 = Rounds THEN "return" ELSE "absorb"]
           /\ UNCHANGED << arg, results >>
Return(c) == /\ pc[c] = "return" /\ pc' = [pc EXCEPT ![c] = "idle"]
             /\ results' = Append(results, << arg[c], drawn[c] >>) /\ UNCHANGED << own, shared, arg, drawn >>
Next == \E c \in Callers : Start(c) \/ Absorb(c) \/ Draw(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

Expected(a) == << << Msg(a, 1) >>, << Msg(a, 1), "c", Msg(a, 2) >> >>
Function == \A i \in 1..Len(results) : results[i][2] = Expected(results[i][1])
=============================================================================
