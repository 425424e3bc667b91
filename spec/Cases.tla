-------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* Recorded cases: one JSON object per line, each the scenario together    *)
(* with what the real code did. A trace specification picks a case and     *)
(* steps it through its own actions.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Has(c, f) == f \in DOMAIN c
Get(c, f, d) == IF f \in DOMAIN c THEN c[f] ELSE d

\* verdicts: "ok", "known ...", "skip ...", "bad ..."
IsBad(v) == Len(v) >= 3 /\ SubSeq(v, 1, 3) = "bad"
Report(k, v) == v = "ok" \/ PrintT(<<"CASE", k, v>>)
=============================================================================
