--------------------------------- MODULE Gen ---------------------------------
(* Common part of the scenario generators: the specification enumerates    *)
(* what the real code is driven through; the driver only executes it.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Tier == IOEnv.TIER
Prop == IOEnv.PROP
RECURSIVE ToNat(_)
Digit(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
               [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9
ToNat(s) == IF Len(s) = 0 THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + Digit(SubSeq(s, Len(s), Len(s)))
Seed == ToNat(IOEnv.SEED) % 1000000
Quick == Tier = "quick"
Q(a, b) == IF Quick THEN a ELSE b

Cpus == {1, 2, 3, 4, 5, 6, 7, 8, 16}
CpusFew == {1, 2, 3, 8}

\* pseudo-random but reproducible choice of roughly one in m elements of a sequence
Mix(k) == ((k % 30011) * 7919 + (Seed % 9973) * 104 + (k \div 30011)) % 65521
Thin(s, m) == IF m <= 1 THEN s
              ELSE LET ks == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : Mix(k) % m = 0) IN [j \in 1..Len(ks) |-> s[ks[j]]]
\* every scenario gets its own seed
Seeded(s) == [k \in 1..Len(s) |-> s[k] @@ ("seed" :> (Seed * 131 + k) % 2000000000)]
S2(set) == SetToSeq(set)
Write(s) == ndJsonSerialize(IOEnv.OUT, s) /\ PrintT(<<"SCENARIOS", Len(s)>>)
=============================================================================
