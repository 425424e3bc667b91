------------------------------ MODULE MCWorker ------------------------------
(***************************************************************************)
(* The worker: a slice is cut into contiguous chunks, one task per chunk   *)
(* is spawned, tasks run interleaved element by element, the scope joins   *)
(* them. Checked: tasks never touch each other's elements, nothing is left *)
(* out, and at the join the result is the sequential definition - for      *)
(* every interleaving, length and number of threads.                       *)
(*  map     element by element                                             *)
(*  powers  element i times base^i, the task keeping its running power     *)
(*  sum     a partial sum per task, added up after the join                *)
(*  cosets  as powers, over the list of cosets of an extension, with the   *)
(*          task's first power as the code has it (D1)                     *)
(* Elements are symbolic: element i stands for itself, a power of the base *)
(* for its exponent, a sum for the bag (here: set with count) of its terms.*)
(***************************************************************************)
EXTENDS Lde
CONSTANTS MaxN, MaxCpus

VARIABLES op, n, cpus, spawned, at, run, out, acc, joined
vars == << op, n, cpus, spawned, at, run, out, acc, joined >>

Ch == ChunkSize(n, cpus)
Chunks == IF n = 0 THEN 0 ELSE CeilDiv(n, Ch)            \* pieces chunks_mut yields
\* the code allocates one partial sum per task it expects, and pairs them with the pieces
Slots == IF n < cpus THEN n ELSE CeilDiv(n, Ch)
Tasks == IF op = "sum" THEN Min2(Chunks, Slots) ELSE Chunks
Len1(t) == Min2(Ch, n - (t - 1) * Ch)                    \* elements of piece t (from 1)
First(t) == IF op = "cosets" THEN t - 1 ELSE (t - 1) * Ch

Init == /\ op \in {"map", "powers", "sum", "cosets"}
        /\ n \in 0..MaxN /\ cpus \in 1..MaxCpus
        /\ (op = "cosets" => n > 0 /\ IsPow2(n))
        /\ spawned = 0 /\ joined = FALSE
        /\ at = [t \in 1..n |-> 0] /\ run = [t \in 1..n |-> 0]
        /\ out = [i \in 1..n |-> << >>]                  \* what was written to element i, in order
        /\ acc = [t \in 1..n |-> << >>]                  \* elements added to partial sum t
Spawn == /\ spawned < Tasks /\ spawned' = spawned + 1
         /\ run' = [run EXCEPT ![spawned + 1] = First(spawned + 1)]
         /\ UNCHANGED << op, n, cpus, at, out, acc, joined >>
Step(t) == /\ t <= spawned /\ at[t] < Len1(t) /\ ~joined
           /\ LET i == (t - 1) * Ch + at[t] + 1 IN
              /\ out' = [out EXCEPT ![i] = Append(@, IF op = "map" THEN i ELSE run[t])]
              /\ acc' = IF op = "sum" THEN [acc EXCEPT ![t] = Append(@, << i, run[t] >>)] ELSE acc
           /\ at' = [at EXCEPT ![t] = @ + 1] /\ run' = [run EXCEPT ![t] = @ + 1]
           /\ UNCHANGED << op, n, cpus, spawned, joined >>
Join == /\ ~joined /\ spawned = Tasks /\ \A t \in 1..Tasks : at[t] = Len1(t)
        /\ joined' = TRUE /\ UNCHANGED << op, n, cpus, spawned, at, run, out, acc >>
Next == Spawn \/ Join \/ \E t \in 1..n : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Owned == \A i \in 1..n : Len(out[i]) <= 1
Cut == Chunks = Tasks /\ (n > 0 => Ch >= 1 /\ (Chunks - 1) * Ch < n /\ n <= Chunks * Ch)
Added == FoldLeft(LAMBDA a, t : a \o acc[t], <<>>, [t \in 1..n |-> t])
Right == CASE op = "map" -> out = [i \in 1..n |-> << i >>]
           [] op \in {"powers", "cosets"} -> out = [i \in 1..n |-> << i - 1 >>]
           [] op = "sum" -> /\ Len(Added) = n
                            /\ {Added[j] : j \in 1..n} = {<< i, i - 1 >> : i \in 1..n}
\* wrong exactly in the configurations of the known finding
Sequential == joined => (Right <=> ~(op = "cosets" /\ LdeDefect(n, cpus)))
\* and what is there instead is what the trace specification calls the coded shift
AsCoded == (joined /\ op = "cosets") => out = [k \in 1..n |-> << CodedShift(n, cpus, k - 1) >>]
Ends == <>joined
=============================================================================
