------------------------------ MODULE TraceHash ------------------------------
(***************************************************************************)
(* Recorded commitments, openings, encodings, transcripts and digest       *)
(* conversions (C08 - C10).                                                *)
(***************************************************************************)
EXTENDS Merkle, Cases, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Req(b, msg) == IF b THEN "ok" ELSE "bad " \o msg
N == Len(Cases)
IsPow2(n) == n \in {2 ^ e : e \in 0..20}
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
OkOp(op) == {j \in 1..N : Cases[j].op = op /\ Cases[j].res = "ok"}

-----------------------------------------------------------------------------
(* C08: the reference tree is built here, from the leaf hashes and the      *)
(* node hash as recorded on every pair the reference tree needs            *)
TreeVerdict(c) ==
  LET ps == c.pairs                       \* the node hash on the pairs of the reference tree, level by level
      fun == Cardinality({<< ps[j][1], ps[j][2] >> : j \in 1..Len(ps)}) = Cardinality({ps[j] : j \in 1..Len(ps)})
      \* level d starts at pair from(d)
      from(d) == 1 + FoldLeft(LAMBDA acc, e : acc + Len(c.leafh) \div (2 ^ e), 0, [e \in 1..(d - 1) |-> e])
      at(l, d) == TLCEval([i \in 1..(Len(l) \div 2) |-> LET q == ps[from(d) + i - 1] IN IF q[1] = l[2 * i - 1] /\ q[2] = l[2 * i] THEN q[3] ELSE 0])
      lv == TLCEval(FoldLeft(LAMBDA acc, d : Append(acc, at(acc[Len(acc)], d)), << c.leafh >>, [d \in 1..Depth(Len(c.leafh)) |-> d]))
  IN IF ~fun THEN "bad node hash is not a function"
     ELSE IF ~(c.root = RootOf(lv) /\ c.root2 = c.root) THEN "bad root"
     ELSE IF c.size # Len(c.a) THEN "bad size"
     ELSE IF \E x \in 1..Len(c.which) : c.paths[x] # PathOf(lv, c.which[x]) THEN "bad path"
     ELSE IF \E x \in 1..Len(c.which) : c.qv[x] # << c.which[x], c.which[x], c.a[c.which[x] + 1] >> THEN "bad query contents"
     ELSE IF \E x \in 1..Len(c.which) : c.gets[x] # << c.a[c.which[x] + 1], c.a[c.which[x] + 1] >> THEN "bad leaf lookup"
     ELSE Req(\A x \in 1..Len(c.which) : c.qok[x], "honest opening does not verify")

\* the root is a function of the leaves, and an injective one; independent of threads
TreeFields == {Cases[j].f : j \in OkOp("tree")}
TreeGroup(f) ==
  LET js == {j \in OkOp("tree") : Cases[j].f = f}
      both == {<< Cases[j].a, Cases[j].rootdigest >> : j \in js}
      ls == {Cases[j].a : j \in js} rs == {Cases[j].rootdigest : j \in js}
  IN Req(Cardinality(both) = Cardinality(ls) /\ Cardinality(both) = Cardinality(rs), "root is not an injective function of the leaves")

-----------------------------------------------------------------------------
(* C09 *)
TryBad(c, t) ==
  LET honest == t.sameValue /\ t.samePath /\ t.sameRoot IN
  \/ t.got # (IF honest THEN "yes" ELSE "no")
  \/ t.what \in {"query over altered leaf accepted", "query over altered sibling accepted"} /\ ~honest
  \/ t.what \in {"query over altered leaf rejected", "query over altered sibling rejected"} /\ honest
OpeningVerdict(c) ==
  LET bad == {j \in 1..Len(c.tries) : TryBad(c, c.tries[j])} IN
  IF bad = {} THEN "ok" ELSE LET t == c.tries[Min(bad)] IN "bad opening (" \o t.what \o ") at " \o ToString(t.i) \o " accepted: " \o t.got

Distinct(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
FirstPos(s) == [x \in {s[j] : j \in 1..Len(s)} |-> CHOOSE j \in 1..Len(s) : s[j] = x]
EncVerdict(c) ==
  LET ks == {c.keys[j] : j \in 1..Len(c.keys)}
      ke == {<< c.keys[j], c.encs[j] >> : j \in 1..Len(c.keys)} es == {c.encs[j] : j \in 1..Len(c.encs)}
      hs == {c.hashes[j] : j \in 1..Len(c.hashes)} kh == {<< c.keys[j], c.hashes[j] >> : j \in 1..Len(c.keys)}
      ps == {c.pairs[j][3] : j \in 1..Len(c.pairs)}
  IN IF ~(Cardinality(ke) = Cardinality(ks) /\ Cardinality(es) = Cardinality(ks)) THEN "bad leaf encoding collides"
     ELSE IF ~(Cardinality(kh) = Cardinality(ks) /\ Cardinality(hs) = Cardinality(ks) /\ c.repeat) THEN "bad leaf hash collides"
     ELSE IF hs \cap ps # {} THEN "bad leaf hash equals a node hash"
     ELSE Req(Cardinality(ps) = Len(c.pairs), "node hash collides")

-----------------------------------------------------------------------------
(* C10: a transcript is its history. Exactly equal histories give equal     *)
(* challenges; histories that differ in an absorbed message, in the order  *)
(* or in the number of challenges drawn give different ones.               *)
Norm(op) == IF op \in {"cb", "ch"} THEN "c" ELSE op
Join(ops, n, F(_)) == FoldLeft(LAMBDA acc, x : acc \o "." \o F(x), "", SubSeq(ops, 1, n))
Id(x) == x
\* <<exact history, normalised history, challenge>> of every challenge of a case
Draws(c) == {<< Join(c.ops, n - 1, Id), Join(c.ops, n - 1, Norm), c.outs[n] >> : n \in {m \in 1..Len(c.ops) : c.ops[m] \in {"cb", "ch"}}}
            \cup {<< Join(c.ops, Len(c.ops), Id), Join(c.ops, Len(c.ops), Norm), c.fin >>}
TranscriptFields == {Cases[j].f : j \in OkOp("transcript")}
TranscriptGroup(f) ==
  LET js == {j \in OkOp("transcript") : Cases[j].f = f}
      all == UNION {Draws(Cases[j]) : j \in js}
      exact == {d[1] : d \in all} ex == {<< d[1], d[3] >> : d \in all}
      outs == {d[3] : d \in all} no == {<< d[2], d[3] >> : d \in all}
  IN IF Cardinality(ex) # Cardinality(exact) THEN "bad equal histories give different challenges"
     ELSE Req(Cardinality(no) = Cardinality(outs), "different histories give equal challenges")

(* digest -> element: every output bit is one fixed digest bit, every bit   *)
(* below the capacity is reachable, nothing else is set                    *)
BitOf(bytes, b) == (bytes[(b \div 8) + 1] \div (2 ^ (7 - (b % 8)))) % 2           \* bit b from the most significant end
Bits(bytes) == {b \in 0..(8 * Len(bytes) - 1) : BitOf(bytes, b) = 1}
\* value position (power of two) of bit b in an element of L bytes
PosOf(b, L) == 8 * L - 1 - b
Tables == TLCEval({j \in 1..N : Cases[j].op = "tofield" /\ Cases[j].what = "table" /\ Cases[j].res = "ok"})
FieldsTF == {Cases[j].f : j \in Tables}
\* the set of positions each digest bit sets
BitImage == TLCEval([f \in FieldsTF |-> LET c == Cases[CHOOSE j \in Tables : Cases[j].f = f] IN
              TLCEval([b \in 0..255 |-> {PosOf(y, Len(c.images[b + 1])) : y \in Bits(c.images[b + 1])}])])
ToFieldGroup(f) ==
  LET im == BitImage[f] cap == Cases[CHOOSE j \in Tables : Cases[j].f = f].capacity IN
  IF \E b \in 0..255 : Cardinality(im[b]) > 1 THEN "bad digest bit spreads"
  ELSE Req(UNION {im[b] : b \in 0..255} = 0..(cap - 1), "reachable elements are not those below the capacity")
Less(a, b) == \E j \in 1..Len(a) : a[j] < b[j] /\ \A k \in 1..(j - 1) : a[k] = b[k]
Expected(f, digest) ==       \* positions set an odd number of times
  LET ones == Bits(digest) im == BitImage[f] IN
  {p \in UNION {im[b] : b \in ones} : Cardinality({b \in ones : p \in im[b]}) % 2 = 1}
ToFieldVerdict(c) ==
  LET posn(v) == {PosOf(y, Len(v)) : y \in Bits(v)} IN
  IF c.what = "table" THEN "ok"
  ELSE IF ~(c.v = c.v2 /\ c.v = c.v3) THEN "bad interpretations of one digest differ"
  ELSE IF ~c.again THEN "bad element and byte challenges leave different states"
  ELSE IF ~Less(c.v, c.modulus) \/ ~Less(c.tv, c.modulus) THEN "bad element is not canonical"
  ELSE IF c.f \notin FieldsTF THEN "bad some digest cannot be interpreted"
  ELSE IF posn(c.v) # Expected(c.f, c.digest) THEN "bad element is not the fixed function of the digest"
  ELSE Req(posn(c.tv) = Expected(c.f, c.tb), "challenge element is not the interpretation of the challenge bytes")

-----------------------------------------------------------------------------
(* C26: an incremental hasher is the string of bytes absorbed since it was made (personalization first) or since its      *)
(* last digest. A digest is an injective function of that string and of the kind of hasher.                              *)
Tail1(x) == SubSeq(x, 2, Len(x))
RECURSIVE Absorbed(_, _, _)
Absorbed(c, buf, j) ==        \* <<string, digest>> of every digest taken
  IF j > Len(c.ops) THEN {<< buf, c.fin >>}
  ELSE LET o == c.ops[j] k == SubSeq(o, 1, 1) IN
       CASE k = "u" -> Absorbed(c, buf \o Tail1(o), j + 1)
         [] k = "c" -> {<< buf, c.outs[j] >>} \cup Absorbed(c, buf, j + 1)
         [] k = "d" -> {<< buf, c.outs[j] >>} \cup Absorbed(c, "", j + 1)
HasherKinds == {Cases[j].kind : j \in OkOp("hasher")}
\* published digests of the empty string and of "abc"
Published(k) == CASE k = "sha256" -> {<< "", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855" >>,
                                     << "616263", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad" >>}
                  [] k = "keccak256" -> {<< "", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470" >>,
                                        << "616263", "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45" >>}
HasherGroup(k) ==
  LET all == UNION {Absorbed(Cases[j], Cases[j].pers, 1) : j \in {i \in OkOp("hasher") : Cases[i].kind = k}}
      other == UNION {Absorbed(Cases[j], Cases[j].pers, 1) : j \in {i \in OkOp("hasher") : Cases[i].kind # k}}
      strings == {d[1] : d \in all} digests == {d[2] : d \in all}
  IN IF Cardinality(all) # Cardinality(strings) THEN "bad equal strings give different digests"
     ELSE IF Cardinality(all) # Cardinality(digests) THEN "bad different strings give equal digests"
     ELSE IF digests \cap {d[2] : d \in other} # {} THEN "bad the two hashers give equal digests"
     ELSE IF \E d \in digests : Len(d) # 64 THEN "bad digest is not 32 bytes long"
     ELSE Req(\A x \in Published(k) : x[1] \in strings => x \in all, "digest is not the published one")

-----------------------------------------------------------------------------
Verdict(c) ==
  IF c.res # "ok" THEN "bad " \o c.res
  ELSE CASE c.op = "tree" -> TreeVerdict(c) [] c.op = "opening" -> OpeningVerdict(c) [] c.op = "enc" -> EncVerdict(c)
         [] c.op = "transcript" -> "ok" [] c.op = "hasher" -> "ok" [] c.op = "tofield" -> ToFieldVerdict(c)
\* relations over all cases of one field
Groups == {<< "tree", f >> : f \in TreeFields} \cup {<< "transcript", f >> : f \in TranscriptFields} \cup {<< "tofield", f >> : f \in FieldsTF}
          \cup {<< "hasher", f >> : f \in HasherKinds}
GroupSeq == SetToSeq(Groups)
GroupVerdict(g) == CASE g[1] = "tree" -> TreeGroup(g[2]) [] g[1] = "transcript" -> TranscriptGroup(g[2]) [] g[1] = "tofield" -> ToFieldGroup(g[2]) [] g[1] = "hasher" -> HasherGroup(g[2])

VARIABLES k, done, why
vars == << k, done, why >>
Init == k \in 1..(N + Len(GroupSeq)) /\ done = FALSE /\ why = "ok"
Judge == ~done /\ done' = TRUE /\ UNCHANGED k
         /\ why' = (IF k <= N THEN Verdict(Cases[k]) ELSE GroupVerdict(GroupSeq[k - N]))
         /\ (IF k <= N THEN Report(k, why') ELSE why' = "ok" \/ PrintT(<<"GROUP", GroupSeq[k - N], why'>>))
Next == Judge
Spec == Init /\ [][Next]_vars
Accepted == ~IsBad(why)
=============================================================================
