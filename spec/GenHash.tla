------------------------------ MODULE GenHash ------------------------------
EXTENDS Gen
AllF == {"5", "17", "97", "193", "257", "12289", "40961", "gold", "p65", "p127", "p129", "stark", "bn", "bls"}
C08 == S2({[op |-> "tree", f |-> f, n |-> n, cpus |-> c, in |-> x] : f \in {"257", "stark"}, n \in {2, 4, 8, 16, 32, 64, 128}, c \in Cpus, x \in {"rand", "zero"}})
    \o S2({[op |-> "tree", f |-> "40961", n |-> n, cpus |-> c, in |-> "rand"] : n \in {256, 512, 1024, 2048}, c \in Cpus})
    \o S2({[op |-> "tree", f |-> "40961", n |-> n, cpus |-> c, in |-> "rand"] : n \in {4096, 8192, 16384} \cup Q({}, {32768, 65536}), c \in Q({1, 3, 8}, {1, 2, 3, 5, 7, 8, 16})})
    \o S2({[op |-> "tree", f |-> f, n |-> n, cpus |-> c, in |-> "b" \o ToString(j)] : f \in {"bls"}, n \in {2, 4, 8, 16}, c \in Cpus, j \in 0..15})
    \o S2({[op |-> "tree", f |-> "257", n |-> 4, cpus |-> 2, a |-> a] : a \in [1..4 -> {0, 1, 2, 256}]})     \* all small vectors: moves and changes
    \o S2({[op |-> "tree", f |-> "257", n |-> 8, cpus |-> 3, a |-> a] : a \in [1..8 -> {5, 6}]})
C09 == S2({[op |-> "opening", f |-> f, n |-> n, cpus |-> c, in |-> x, byte |-> b] :
           f \in {"257", "gold", "stark"}, n \in {2, 4, 8, 16, 32, 64, 128}, c \in {1, 3}, x \in {"rand", "zero", "sparse"}, b \in {0, 1, 7, 15, 16, 24, 31}})
    \o S2({[op |-> "opening", f |-> f, n |-> n, cpus |-> 3, in |-> "rand", byte |-> 7] : f \in {"40961", "stark"}, n \in {256, 512, 1024, 4096}})
    \o S2({[op |-> "opening", f |-> f, n |-> 8, cpus |-> 2, in |-> "rand", byte |-> b] : f \in AllF \ {"5"}, b \in 0..31})
    \o S2({[op |-> "opening", f |-> "257", n |-> 4, cpus |-> 2, a |-> a, byte |-> 3] : a \in [1..4 -> {3, 4}]})
    \o S2({[op |-> "enc", f |-> f, what |-> "all"] : f \in {"5", "17", "97", "193", "257", "12289"}})
    \o S2({[op |-> "enc", f |-> f, what |-> "bits", n |-> Q(200, 400), digests |-> 14] : f \in AllF})
Tokens == {"bA", "bB", "bC", "bS", "f0", "f1", "fm", "fh", "cb", "ch"}
\* long histories: repeated draws, repeated messages, draws between messages
Rep(s, n) == FlattenSeq([j \in 1..n |-> s])
LongHistories == {[op |-> "transcript", f |-> f, ops |-> o] : f \in {"gold", "stark"}, o \in
     UNION {{Rep(<<"cb">>, n), Rep(<<"ch">>, n) \o <<"f1">>, Rep(<<"f1">>, n) \o <<"cb">>, Rep(<<"bA">>, n) \o <<"ch", "cb">>, Rep(<<"f1", "cb">>, n), Rep(<<"bA", "ch">>, n),
             <<"cb">> \o Rep(<<"f0">>, n), Rep(<<"bS">>, n)} : n \in 4..Q(40, 120)}}
\* every length of message, every byte of it, every bit of an element
MsgLens == {1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 200}
Messages == {[op |-> "transcript", f |-> "stark", ops |-> << "x" \o ToString(l) >>] : l \in 1..Q(140, 300)}
      \cup {[op |-> "transcript", f |-> "stark", ops |-> << "x" \o ToString(l[1]) \o "_" \o ToString(l[2]) >>] : l \in {y \in MsgLens \X (0..199) : y[2] < y[1]}}
      \cup {[op |-> "transcript", f |-> "p65", ops |-> << "f1", "x" \o ToString(l[1]) \o "_" \o ToString(l[2]), "ch", "f0" >>] : l \in {y \in {32, 64} \X (0..63) : y[2] < y[1]}}
      \cup {[op |-> "transcript", f |-> fi[1], ops |-> << "q" \o ToString(fi[2]) >>] : fi \in {y \in {"gold", "p65", "p127", "p129", "stark", "bn", "bls"} \X (1..253) : y[2] <=
             (CASE y[1] = "gold" -> 62 [] y[1] = "p65" -> 63 [] y[1] = "p127" -> 125 [] y[1] = "p129" -> 127 [] y[1] = "stark" -> 250 [] y[1] = "bn" -> 252 [] y[1] = "bls" -> 253)}}
\* kilobytes in one message, hundreds of messages and draws
Huge == {[op |-> "transcript", f |-> "stark", ops |-> << "x" \o ToString(l), "ch" >>] : l \in {500, 1000, 1024, 4096, 5000, 65536, 70000}}
      \cup {[op |-> "transcript", f |-> "stark", ops |-> << "x" \o ToString(l) \o "_" \o ToString((l * j) \div 8 - (IF j = 8 THEN 1 ELSE 0)), "ch" >>] : l \in {500, 1000, 1024, 4096, 5000, 65536, 70000}, j \in 1..8}
      \cup {[op |-> "transcript", f |-> f, ops |-> o] : f \in {"stark"}, o \in UNION {{Rep(<<"cb">>, n), <<"f1">> \o Rep(<<"ch">>, n), Rep(<<"f1">>, n) \o <<"cb">>, Rep(<<"bA">>, n) \o <<"ch", "cb">>,
             Rep(<<"f0">>, n - 1) \o <<"f1", "cb">>, Rep(<<"bA">>, n - 1) \o <<"bB", "cb">>} : n \in {127, 128, 129, 255, 256, 257, 258, 300} \cup Q({}, {511, 512, 513, 1025})}}
C10 == S2({[op |-> "transcript", f |-> f, ops |-> o] : f \in {"12289", "gold", "p65", "p129", "stark", "bls"}, o \in UNION {[1..d -> Tokens] : d \in 0..2}})
    \o S2({[op |-> "transcript", f |-> f, ops |-> o] : f \in {"stark", "p65"}, o \in [1..3 -> Tokens]})
    \o (IF Quick THEN S2({[op |-> "transcript", f |-> "stark", ops |-> o] : o \in [1..4 -> {"bA", "f1", "cb", "ch", "bS"}]})
        ELSE S2({[op |-> "transcript", f |-> "stark", ops |-> o] : o \in [1..4 -> Tokens]}) \o
             S2({[op |-> "transcript", f |-> "p129", ops |-> o] : o \in [1..5 -> {"bA", "bB", "f1", "cb", "ch", "bS"}]}))
    \o S2(LongHistories) \o S2(Messages) \o S2(Huge)
    \o S2({[op |-> "tofield", f |-> f, what |-> "table", i |-> 0] : f \in AllF})
    \o S2({[op |-> "tofield", f |-> f, what |-> w, i |-> b] : f \in AllF, w \in {"bit", "nbit"}, b \in 0..255})
    \o S2({[op |-> "tofield", f |-> f, what |-> w, i |-> 0] : f \in AllF, w \in {"zero", "ff"}})
    \o S2({[op |-> "tofield", f |-> f, what |-> "rand", i |-> b] : f \in AllF, b \in 1..Q(100, 200)})
-----------------------------------------------------------------------------
(* C26: the same bytes in all cuts over personalization, updates and earlier use *)
Rpt(h, n) == FoldLeft(LAMBDA acc, x : acc \o h, "", [j \in 1..n |-> j])
HSmall == {"", "00", "01", "0001", "6162", "63"}
HLong == {Rpt("5a", n) : n \in {31, 32, 55, 56, 63, 64, 65, 127, 128, 135, 136, 137, 200, 272}}
HTok == {"u" \o x : x \in HSmall} \cup {"d", "c"}
Rpt2(x, n) == [j \in 1..n |-> x]
HCase(k, p, o) == [op |-> "hasher", f |-> "stark", kind |-> k, pers |-> p, ops |-> o]
Cut(n, i) == << "u" \o Rpt("5a", i), "u" \o Rpt("5a", n - i) >>
C26 == S2({HCase(k, p, o) : k \in {"sha256", "keccak256"}, p \in HSmall, o \in UNION {[1..d -> HTok] : d \in 0..Q(3, 4)}})
    \o S2({HCase(k, p, << "u" \o x, "c", "u" \o y, "d", "u" \o x >>) : k \in {"sha256", "keccak256"}, p \in {"", "01"}, x \in HLong, y \in HLong})
    \o S2({HCase(k, "", << "u" \o Rpt("00", n), "u01" >>) : k \in {"sha256", "keccak256"}, n \in {500, 1000, 1023, 1024, 4095, 4096, 4097, 9000}})
    \o S2({HCase(k, "", << "u" \o Rpt("00", n) \o "01", "c", "u" >>) : k \in {"sha256", "keccak256"}, n \in {500, 1000, 1023, 1024, 4095, 4096, 4097, 9000}})
    \o S2({HCase(k, "", << "u" \o Rpt("00", n), "u01" \o Rpt("00", m) >>) : k \in {"sha256", "keccak256"}, n \in {0, 1, 500, 2000}, m \in {100, 1500}})
    \o S2({HCase(k, "", Rpt2("u5a", n)) : k \in {"sha256", "keccak256"}, n \in {63, 64, 65, 128, 200, 255, 256, 257, 300}})
    \o S2({HCase(k, "", Cut(n[1], n[2])) : k \in {"sha256", "keccak256"}, n \in {y \in Q({64, 136}, {64, 65, 128, 136, 137}) \X (0..137) : y[2] <= y[1]}})
    \o S2({HCase(k, Rpt("5a", n[2]), << "u" \o Rpt("5a", n[1] - n[2]) >>) : k \in {"sha256", "keccak256"}, n \in {y \in {64, 136} \X (0..136) : y[2] <= y[1]}})
    \o S2({HCase(k, "", << "u" \o Rpt("00", b), "u01", "u" \o Rpt("00", 63 - b) >>) : k \in {"sha256", "keccak256"}, b \in 0..63})
Scenarios == CASE Prop = "C08" -> C08 [] Prop = "C09" -> C09 [] Prop = "C10" -> C10 [] Prop = "C26" -> C26
ASSUME Write(Seeded(Scenarios))
=============================================================================
