-------------------------------- MODULE MCFri --------------------------------
(***************************************************************************)
(* The low-degree test as a game. A word is a low-degree polynomial's      *)
(* values plus an error; layer by layer a challenge is drawn and the       *)
(* prover commits a next layer: the fold, or the fold with one value       *)
(* changed, or the values of any constant; in the end it sends the true    *)
(* final coefficients or any other constant first coefficient, and every   *)
(* position is queried. The verifier is operator FriAccepts, the one the   *)
(* recorded verdicts are compared with.                                    *)
(***************************************************************************)
EXTENDS Fri
CONSTANTS P, Init0, LdeF, OutD, Errs, Chs
N == Init0 * LdeF
Rnds == Steps(Init0, OutD)

VARIABLES base, err, layers, chs, honest, coefs, pos, claim
vars == << base, err, layers, chs, honest, coefs, pos, claim >>

Codewords == {[j \in 1..Init0 |-> 0], [j \in 1..Init0 |-> j], [j \in 1..Init0 |-> IF j = Init0 THEN 1 ELSE 0]}
Word(b, e) == LET v == Dft(P, PPad(b, N), Omega(P, N)) IN TLCEval([j \in 1..N |-> IF j \in DOMAIN e THEN (v[j] + e[j]) % P ELSE v[j]])
\* errors at up to two places of the coset the queries can reach (positions from 1; query positions are odd from 0)
ErrSet == {<<>>} \cup {(j :> v) : j \in 1..N, v \in Errs} \cup {(2 :> v) @@ (j :> u) : j \in {4, N \div 2 + 2}, u \in Errs, v \in Errs}
Nothing == [kind |-> "none"]
Init == /\ base \in Codewords /\ err \in ErrSet
        /\ layers = << Word(base, err) >> /\ chs = <<>> /\ honest = TRUE /\ coefs = <<>> /\ pos = -1 /\ claim = 0
Size(l) == Len(l)
True(l) == IDft(P, l, Omega(P, Len(l)))
Draw == /\ Len(chs) < Rnds /\ Len(chs) = Len(layers) - 1
        /\ \E c \in Chs : chs' = Append(chs, c)
        /\ UNCHANGED << base, err, layers, honest, coefs, pos, claim >>
Commit == /\ Len(chs) = Len(layers) /\ Len(layers) <= Rnds
          /\ LET l == layers[Len(layers)]
                 nx == Fold(P, l, Omega(P, Len(l)), chs[Len(chs)])
             IN \/ layers' = Append(layers, nx) /\ UNCHANGED honest
                \/ \E j \in 1..Len(nx) : layers' = Append(layers, [nx EXCEPT ![j] = (@ + 1) % P]) /\ honest' = FALSE
                \/ \E j \in 1..Len(nx) : layers' = Append(layers, [i \in 1..Len(nx) |-> nx[j]]) /\ honest' = FALSE
          /\ UNCHANGED << base, err, chs, coefs, pos, claim >>
Send == /\ Len(layers) = Rnds + 1 /\ coefs = <<>>
        /\ LET t == True(layers[Len(layers)]) IN
           \/ coefs' = SubSeq(t, 1, OutD) /\ UNCHANGED honest
           \/ \E d \in 1..OutD : coefs' = [SubSeq(t, 1, OutD) EXCEPT ![d] = (@ + 1) % P] /\ honest' = FALSE
           \/ \E j \in {2, 4} \cap 1..Len(layers[Len(layers)]) : coefs' = [i \in 1..OutD |-> IF i = 1 THEN layers[Len(layers)][j] ELSE 0] /\ honest' = FALSE
        /\ UNCHANGED << base, err, layers, chs, pos, claim >>
Query == /\ coefs # <<>> /\ pos = -1
         /\ \E i \in {j \in 0..(N - 1) : j % 2 = 1}, dv \in {0, 1} :
               pos' = i /\ claim' = (layers[1][i + 1] + dv) % P /\ honest' = (honest /\ dv = 0)
         /\ UNCHANGED << base, err, layers, chs, coefs >>
Next == Draw \/ Commit \/ Send \/ Query
Spec == Init /\ [][Next]_vars

\* the proof as the real prover would assemble it; layer k has root k
RECURSIVE Openings(_, _)
Openings(k, i) ==
  IF k > Len(layers) THEN <<>>
  ELSE LET h == Len(layers[k]) \div 2 a == i % h IN
       << [i |-> a, v |-> layers[k][a + 1], t |-> << k >>], [i |-> a + h, v |-> layers[k][a + h + 1], t |-> << k >>] >> \o Openings(k + 1, a)
Proof == [roots |-> [k \in 1..Len(layers) |-> k], q |-> Openings(1, pos), coefs |-> coefs, init |-> Init0, out |-> OutD, lde |-> LdeF]
ChMap == [k \in 1..Len(layers) |-> IF k <= Len(chs) THEN chs[k] ELSE 0]
Accepted == FriAccepts(P, Proof, ChMap, pos, claim)

\* degree of the word on the queried coset (the odd positions)
LowOnCoset == \E b \in Codewords : layers[1] = Word(b, <<>>)
Folds(k, a) == LET f == Fold(P, layers[k], Omega(P, Len(layers[k])), chs[k]) IN layers[k + 1][a + 1] = f[a + 1]
RECURSIVE AllFold(_, _)
AllFold(k, i) == LET h == Len(layers[k]) \div 2 a == i % h
                     l == layers[k] w == Omega(P, Len(l)) IN
  IF k = Len(layers) THEN l[a + 1] = PEval(P, coefs, FPow(P, w, a)) /\ l[a + h + 1] = PEval(P, coefs, FPow(P, w, a + h))
  ELSE Folds(k, a) /\ AllFold(k + 1, a)
Complete == (pos # -1 /\ honest /\ err = <<>>) => Accepted
\* accepted exactly when the claim is right and every round folds along the query
Exact == pos # -1 => (Accepted <=> (claim = layers[1][pos + 1] /\ AllFold(1, pos)))
\* folding halves the degree: values and coefficients agree
Degrees == (Len(layers) = 1) =>
  \A c \in Chs : Dft(P, PPad(FoldCoefs(P, base, c), N \div 2), Omega(P, N \div 2)) = Fold(P, Word(base, <<>>), Omega(P, N), c)
\* a word that is not of low degree on the queried coset folds to one of low degree for at most one challenge:
\* (out = 1) the pairs' folds can be made equal by at most one challenge
Odd2(l) == {a \in 0..((Len(l) \div 2) - 1) : a % 2 = 1}
Gap == (Len(layers) = 1 /\ Rnds = 1 /\ OutD = 1) =>
  LET l == layers[1]
      same(c) == LET f == Fold(P, l, Omega(P, N), c) IN \A a, b \in Odd2(l) : f[a + 1] = f[b + 1]
      good == {c \in 0..(P - 1) : same(c)}
  IN Cardinality(good) <= 1 \/ good = 0..(P - 1)
=============================================================================
