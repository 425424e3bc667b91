---------------------------- MODULE MCTranscript ----------------------------
(***************************************************************************)
(* Binding of challenges. The prover's messages and the challenges follow  *)
(* a fixed schedule; a challenge is a free term over everything absorbed   *)
(* (and drawn) before it. An adversary answers honestly or, for any set of *)
(* messages, puts another one into the finished proof than the one it was  *)
(* drawing challenges with. The verifier draws from the finished proof.    *)
(* The schedule of the code is checked; the schedules with the defects     *)
(* that were repaired (late claimed evaluations, missing layer roots and   *)
(* final coefficients) are checked to fail.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Regs, Coefs, Claims, Layers, Schedule
A(m) == << "absorb", m >>
D(c) == << "draw", c >>
Each(n, F(_)) == [i \in 1..n |-> F(i)]
Msg(k, i) == << k, i >>
Good ==
  Each(Regs, LAMBDA i : A(Msg("f_root", i))) \o Each(Coefs, LAMBDA i : D(Msg("coef", i)))
  \o << A(Msg("g_root", 1)), D(Msg("z", 1)) >>
  \o FlattenSeq([i \in 1..Claims |-> << A(Msg("f_at_z", i)), D(Msg("alpha", i)) >>])
  \o Each(Layers, LAMBDA i : A(Msg("h1", i))) \o << A(Msg("h1_coefs", 1)) >>
  \o Each(Layers, LAMBDA i : A(Msg("h2", i))) \o << A(Msg("h2_coefs", 1)) >>
  \o << D(Msg("pos", 1)), D(Msg("pos", 2)) >>
Without(s, ms) == SelectSeq(s, LAMBDA e : e \notin {A(m) : m \in ms})
Swapped == FlattenSeq([i \in 1..Claims |-> << D(Msg("alpha", i)), A(Msg("f_at_z", i)) >>])
Plan == CASE Schedule = "good" -> Good
          [] Schedule = "late_claims" -> LET k == CHOOSE k \in 1..Len(Good) : Good[k] = A(Msg("f_at_z", 1)) IN
                SubSeq(Good, 1, k - 1) \o Swapped \o SubSeq(Good, k + 2 * Claims, Len(Good))
          [] Schedule = "no_inner_roots" -> Without(Good, {Msg("h1", i) : i \in 2..Layers})
          [] Schedule = "no_final_coefs" -> Without(Good, {Msg("h2_coefs", 1)})
Messages == {Msg("f_root", i) : i \in 1..Regs} \cup {Msg("g_root", 1)} \cup {Msg("f_at_z", i) : i \in 1..Claims}
            \cup {Msg(k, i) : k \in {"h1", "h2"}, i \in 1..Layers} \cup {Msg("h1_coefs", 1), Msg("h2_coefs", 1)}
\* what must be known before a challenge is drawn: the protocol's rounds
Binds(c) ==
  LET f == {Msg("f_root", i) : i \in 1..Regs} g == f \cup {Msg("g_root", 1)}
  IN CASE c[1] = "coef" -> f
       [] c[1] = "z" -> g
       [] c[1] = "alpha" -> g \cup {Msg("f_at_z", i) : i \in 1..c[2]}
       [] c[1] = "pos" -> Messages

VARIABLES step, log, altered, prover, verifier
vars == << step, log, altered, prover, verifier >>
\* log: what was absorbed and drawn so far by each side; drawn challenges: name -> term (the log they were drawn from)
Init == /\ step = 1 /\ log = << <<>>, <<>> >> /\ altered \in {s \in SUBSET Messages : Cardinality(s) <= 2}
        /\ prover = <<>> /\ verifier = <<>>
Val(m, side) == IF side = 2 /\ m \in altered THEN "other" ELSE "said"
Go == /\ step <= Len(Plan) /\ step' = step + 1 /\ UNCHANGED altered
      /\ LET e == Plan[step] IN
         IF e[1] = "absorb"
         THEN /\ log' = << Append(log[1], << e[2], Val(e[2], 1) >>), Append(log[2], << e[2], Val(e[2], 2) >>) >>
              /\ UNCHANGED << prover, verifier >>
         ELSE /\ prover' = (e[2] :> log[1]) @@ prover /\ verifier' = (e[2] :> log[2]) @@ verifier
              /\ log' = << Append(log[1], << "drawn", "" >>), Append(log[2], << "drawn", "" >>) >>
Spec == Init /\ [][Go]_vars
Drawn == DOMAIN prover
\* nothing altered: the same challenges on both sides
Same == altered = {} => prover = verifier
\* a message that has to be known changes the challenge when it is changed
Bound == \A c \in Drawn : (altered \cap Binds(c) # {}) => prover[c] # verifier[c]
\* no two challenges are the same
Fresh == \A c, d \in Drawn : c # d => prover[c] # prover[d]
=============================================================================
