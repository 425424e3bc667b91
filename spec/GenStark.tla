------------------------------- MODULE GenStark -------------------------------
(* Protocol runs the real prover and verifier are driven through           *)
EXTENDS Gen

\* two-power orders of the multiplicative groups of the fields used
Room == [f \in {"257", "12289", "40961", "stark"} |-> CASE f = "257" -> 256 [] f = "12289" -> 4096 [] f = "40961" -> 8192 [] f = "stark" -> 1000000]
RECURSIVE P2(_)
P2(n) == IF n <= 1 THEN 1 ELSE 2 * P2((n + 1) \div 2)
G(rows, regs, deg, style, sd) ==
  [rows |-> rows, regs |-> regs, deg |-> deg, style |-> style, extra |-> sd % 5, bcs |-> 1 + (sd % 6),
   maxstep |-> 1 + (sd % 4), spanx |-> sd % 4, startx |-> (sd \div 3) % 5, seed |-> Seed * 1000 + sd]
Base(f, cpus, lde, out, g) == [op |-> "stark", f |-> f, cpus |-> cpus, lde |-> lde, out |-> out, gen |-> g]
\* keeps what the field has room for and what the low-degree test is defined for
Fits(s) == /\ s.out <= P2(s.gen.rows)
           /\ P2(s.gen.rows) * P2(s.gen.deg) * s.lde <= Room[s.f]
           /\ P2(s.gen.rows) * P2(s.gen.deg) * s.lde <= 8192
Sel(set) == SelectSeq(S2(set), Fits)
Chunky(f, cpus) == cpus > 1 /\ f \div cpus >= 2
NoD1(s) == ~Chunky(s.lde, s.cpus) /\ ~Chunky(P2(s.gen.deg), s.cpus)

Grid(fs, cpuss, rowss, regss, degs, ldes, outs, styles, k0, m) ==
  Thin(Sel({Base(f, cpus, lde, out, G(rows, regs, deg, style, k0 + 7 * rows + 3 * regs + 11 * deg + 5 * lde + out)) :
         f \in fs, cpus \in cpuss, rows \in rowss, regs \in regss, deg \in degs, lde \in ldes, out \in outs, style \in styles}), m)
Many(s, n, F(_, _)) == FlattenSeq([j \in 1..n |-> [i \in 1..Len(s) |-> F(s[i], j)]])

Builders(fs, cpuss) ==
  S2({[op |-> "stark", f |-> f, cpus |-> c, lde |-> lde, out |-> out, builder |-> b] : f \in fs, c \in cpuss, lde \in {4, 16}, out \in {1, 2},
      b \in {[which |-> "vdf", c0 |-> 3, c1 |-> 5, n |-> n] : n \in {3, 4, 7, 10}} \cup {[which |-> "cubic", c0 |-> 2, c1 |-> 1, n |-> n] : n \in {1, 3, 6, 7}}
           \cup {[which |-> "fib", c0 |-> 1, c1 |-> 1, n |-> n, final |-> 5, at |-> 3] : n \in {4, 5, 9}}})

Rows == Q({2, 3, 4, 5, 6, 7, 8, 9, 13, 16}, (2..20) \cup {31, 32, 33, 48, 63, 64, 65})
Outs == {1, 2, 4, 8, 16}
\* more threads than rows, and numbers of threads that do not divide anything
Tiny(k0, m) == Grid({"12289", "40961"}, {5, 7, 16, 31}, {1, 2, 3, 4, 6, 8}, {1, 2}, {1, 2, 3, 4}, {2, 4}, {1, 2}, {"mix"}, k0, m)
\* traces and domains of a larger size
Long(fs, k0, m) == Grid(fs, {1, 3, 8}, {31, 32, 33, 64, 65, 100, 128}, {1, 2, 5}, 1..4, {2, 4, 16}, {1, 4, 16}, {"mix"}, k0, m)
\* many registers, constraints, boundary conditions; high degrees, long steps, late starts
GX(rows, regs, deg, sd) == [G(rows, regs, deg, "mix", sd) EXCEPT !.extra = IF sd % 3 = 0 THEN 12 ELSE sd % 4, !.bcs = IF sd % 2 = 0 THEN 20 ELSE sd % 3,
                              !.maxstep = 1 + (sd % 13), !.spanx = (sd \div 2) % 9, !.startx = (sd \div 5) % 14]
Wide(fs, k0, m) == Thin(Sel({Base(f, c, lde, out, GX(rows, regs, deg, k0 + 13 * rows + 5 * regs + 3 * deg + lde + c)) :
     f \in fs, c \in {1, 3, 16}, lde \in {2, 4, 32, 64}, out \in {1, 4}, rows \in {3, 5, 8, 20, 33, 64}, regs \in {1, 8, 17, 33}, deg \in {2, 7, 8, 9, 16}}), m)
\* traces of a thousand rows and more
Vast(fs, k0, m) == Thin(Sel({Base(f, c, lde, out, G(rows, regs, deg, "mix", k0 + rows + regs + deg + lde)) :
     f \in fs, c \in {1, 8}, lde \in {2, 8}, out \in {1, 64}, rows \in {255, 300, 512, 1000, 1024, 2000}, regs \in {1, 3}, deg \in {1, 2, 4}}), m)
\* each count beyond what a byte holds: power, step, start, span, register, constraints, boundary conditions
FarG(rows, regs, deg, step, spanx, start, extra, bcs, sd) == [G(rows, regs, deg, "mix", sd) EXCEPT !.maxstep = step, !.spanx = spanx, !.startx = start, !.extra = extra, !.bcs = bcs] @@ [far |-> TRUE]
Far(fs, k0, m) == Thin(Sel({Base(f, c, lde, 1, g) : f \in fs, c \in {1, 4, 8}, lde \in {2, 4}, g \in
      UNION {{FarG(3, 2, d, 1, 1, 0, 2, 3, k0 + d) : d \in {31, 64, 100, 128, 255, 256, 257, 300}},
             {FarG(n, 2, 2, n \div 2, 2, 1, 2, 3, k0 + n) : n \in {40, 130, 258, 520, 600}}, {FarG(n, 2, 2, 1, 2, n \div 2, 2, 3, k0 + n) : n \in {40, 130, 258, 520, 600}},
             {FarG(n, 2, 2, 1, n \div 2, 2, 2, 3, k0 + n) : n \in {40, 130, 258, 520, 600}},
             {FarG(4, r, 2, 1, 1, 0, 2, 3, k0 + r) : r \in {64, 129, 256, 257}}, {FarG(5, 2, 3, 1, 1, 0, x, 3, k0 + x) : x \in {64, 255, 256, 300}},
             {FarG(9, 3, 2, 1, 1, 0, 1, b, k0 + b) : b \in {64, 255, 256, 300}}}}), m)
C01 == IF Prop # "C01" THEN <<>> ELSE Grid({"12289", "40961"}, {1, 2, 3, 8}, Rows, 1..3, 1..5, {2, 4, 8, 16}, Outs, {"mix", "const", "zero"}, 0, Q(25, 6))
    \o Grid({"stark"}, {1, 8}, {2, 3, 5, 8, 11, 16, 31, 64} \cup Q({}, {100, 128, 200, 256}), {1, 2, 5}, 1..6, {2, 4, 8, 16, 32}, {1, 2, 8, 64}, {"mix"}, 100, Q(13, 4))
    \o Grid({"257"}, {1, 3}, {2, 3, 4, 5}, 1..2, 1..3, {2, 4}, {1, 2}, {"mix"}, 200, Q(2, 1))
    \o Builders({"12289", "stark"}, Q({1, 3}, {1, 3, 16}))
    \o Long({"12289", "40961"}, 260, Q(21, 3))
    \o Tiny(250, Q(13, 5))
    \o Wide({"12289", "40961", "stark"}, 2600, Q(49, 11))
    \o Vast({"40961", "stark"}, 2650, Q(7, 2))
    \o Far({"12289", "40961", "stark"}, 3000, Q(7, 2))

Mut(s, j) == s @@ ("mut" :> << << j, 3 * j + s.gen.rows, 1 + (j % 5) >> >>)
Zeroes(ks, n) == [i \in 1..n |-> << ks[i], 0 >>]
Script(s, j) == Mut(s, j) @@ ("script" :>
   CASE j % 6 = 0 -> << <<0, 0>>, <<1, 0>> >>
     [] j % 6 = 1 -> << <<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>> >>
     [] j % 6 = 2 -> << <<2, 0>>, <<3, 0>> >>
     [] j % 6 = 3 -> [i \in 1..(4 + (s.gen.seed % 9)) |-> << i - 1, 0 >>]
     [] j % 6 = 4 -> << <<0, 1>>, <<1, 1>>, <<4, 0>>, <<5, 0>> >>
     [] j % 6 = 5 -> [i \in 1..(6 + (s.gen.seed % 20)) |-> << i - 1, 0 >>])
C02 == IF Prop # "C02" THEN <<>> ELSE Many(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 7, 8, 9}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4}, {"mix", "zero"}, 300, Q(5, 3)), Q(2, 5), Mut)
    \o Many(Grid({"12289", "40961"}, {1}, {2, 3, 4, 5, 7, 8}, 1..3, 1..4, {2, 4}, {1, 2}, {"mix", "zero"}, 400, Q(7, 4)), Q(4, 6), Script)
    \o Many(Grid({"stark"}, {1}, {2, 3, 4, 5, 8, 13}, 1..3, 1..4, {4, 8}, {1, 2}, {"mix", "const", "zero"}, 500, Q(2, 1)), Q(3, 8), Mut)
    \o Grid({"12289", "40961"}, {1, 2}, {2, 3, 4, 5, 7, 8, 9}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4}, {"mix"}, 600, Q(11, 5))
    \o Many(Wide({"12289", "40961"}, 3300, Q(45, 13)), Q(1, 3), Mut) \o Many(Far({"40961", "stark"}, 3400, Q(5, 2)), Q(1, 3), Mut) \o Many(Vast({"40961"}, 3450, Q(9, 3)), 1, Mut)

Tam(set, modes, max) == [i \in 1..Len(set) |-> set[i] @@ ("tamper" :> modes) @@ ("tmax" :> max)]
Slim(set) == [i \in 1..Len(set) |-> set[i] @@ ("slim" :> TRUE)]
Clean(seq) == SelectSeq(seq, NoD1)
C03 == IF Prop # "C03" THEN <<>> ELSE Tam(Clean(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 8}, 1..3, 1..3, {2, 4, 8}, {1, 2, 4}, {"mix"}, 700, Q(7, 6))), << "parts" >>, Q(70, 150))
    \o Tam(Clean(Grid({"stark"}, {1}, {2, 3, 4, 5, 8, 13, 16}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4, 8}, {"mix"}, 800, Q(2, 2))), << "parts", "msg" >>, Q(400, 2000))
    \o Tam(Clean(Wide({"12289", "40961"}, 3700, Q(85, 37))), << "parts" >>, Q(60, 150)) \o Tam(Clean(Far({"40961", "stark"}, 3750, Q(11, 5))), << "parts" >>, Q(60, 150))
    \o Tam(Clean(Wide({"stark"}, 3800, Q(43, 19))), << "parts", "msg" >>, Q(150, 600))
C04 == IF Prop # "C04" THEN <<>> ELSE Tam(Clean(Grid({"stark"}, {1, 2}, {2, 3, 4, 5, 8, 16}, 1..3, 1..4, {2, 4, 8, 16}, {1, 2, 4}, {"mix", "zero"}, 900, Q(7, 6))), << "shape", "parts", "params" >>, 3000)
    \o Slim(Tam(Clean(Grid({"12289"}, {1}, {2, 3, 4, 8}, 1..2, 1..3, {2, 4, 8}, {1, 2}, {"mix", "zero"}, 1000, Q(2, 2))), << "shape", "params", "pos" >>, 3000))
    \o FlattenSeq([v \in 1..5 |-> LET x == <<1, 2, 3, 64, 1024>>[v] IN
          [i \in 1..4 |-> [Base("stark", 1, 4, 1, G(1 + i, 2, 2, "mix", i)) EXCEPT !.lde = 4] @@ ("vlde" :> x) @@ ("tamper" :> << "shape" >>) @@ ("tmax" :> 60)]])
    \o Tam(Clean(Wide({"stark"}, 3850, Q(63, 29))), << "shape", "parts", "params" >>, Q(200, 1000)) \o Tam(Clean(Far({"stark"}, 3880, Q(13, 5))), << "shape", "params" >>, Q(200, 1000))
C05 == IF Prop # "C05" THEN <<>> ELSE Tam(Clean(Grid({"12289", "40961"}, {1}, {2, 3, 4, 7, 8}, 1..2, 1..4, {2, 4, 8, 16}, {1, 2, 4}, {"zero", "const"}, 1100, Q(3, 3))), << "params" >>, 200)
    \o [i \in 1..Q(30, 120) |-> Base("12289", 1, 4, 1, G(2 + (i % 5), 1 + (i % 2), 1 + (i % 3), IF i % 2 = 0 THEN "zero" ELSE "mix", i)) @@ ("vlde" :> <<1, 2, 8, 16>>[1 + (i % 4)])]
C06 == IF Prop # "C06" THEN <<>> ELSE Tam(Clean(Grid({"stark"}, {1, 2}, {2, 3, 4, 5, 8, 16}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4, 8}, {"mix"}, 1200, Q(2, 2))), << "msg" >>, 1000)
    \o Tam(Clean(Wide({"stark"}, 3900, Q(33, 19))), << "msg" >>, Q(200, 1000)) \o Tam(Clean(Far({"stark"}, 3950, Q(3, 2))), << "msg" >>, Q(120, 600))
Idx == IF Prop # "C07" THEN <<>> ELSE S2({[op |-> "idx", size |-> x[1] * x[2], lde |-> x[2]] : x \in Q({1, 2, 4, 8, 16, 32}, {1, 2, 4, 8, 16, 32, 64, 128, 256}) \X {2, 4, 8, 16, 32}})
    \o S2({[op |-> "idx", size |-> x[1] * x[2], lde |-> x[2]] : x \in {1, 2, 4, 8} \X {64, 128, 256, 1024}})
    \o S2({[op |-> "idxs", lg |-> x[1], lde |-> 2 ^ x[2]] : x \in (13..30) \X {1, 2, 3, 4, 7, 8, 12}})
C07 == IF Prop # "C07" THEN <<>> ELSE Idx
    \o Tam(Clean(Grid({"12289", "40961"}, {1}, {2, 3, 4, 8}, 1..3, 1..3, {2, 4, 8}, {1, 2}, {"zero", "const"}, 1300, Q(4, 1))), << "pos" >>, 200)
    \o Clean(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 8, 9}, 1..3, 1..4, {2, 4, 8}, {1, 2}, {"mix"}, 1400, Q(7, 2)))
C17 == IF Prop # "C17" THEN <<>> ELSE Grid({"12289", "40961"}, {1, 2, 3, 8}, Q({1, 2, 3, 4, 5, 7, 8, 9}, (1..17) \cup {31, 32, 33}), 1..3, 1..5, {2, 4}, {1, 2}, {"mix", "const"}, 1500, Q(13, 5))
    \o Many(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 7, 8}, 1..3, 1..4, {2, 4}, {1}, {"mix", "zero"}, 1600, Q(7, 3)), 1, Mut)
    \o Many(Grid({"12289"}, {1}, {2, 3, 4, 5}, 1..2, 1..3, {2}, {1}, {"mix"}, 1700, Q(2, 1)), Q(1, 6), Script)
    \o Builders({"12289"}, {1, 3})
    \o Long({"40961"}, 1760, Q(41, 3))
    \o Tiny(1750, Q(23, 5))
    \o Wide({"12289", "40961"}, 2700, Q(97, 11))
    \o Vast({"40961"}, 2750, Q(11, 2))
    \o Far({"40961"}, 3100, Q(7, 1))
C18 == IF Prop # "C18" THEN <<>> ELSE Grid({"12289", "40961"}, {1, 2, 3, 8}, Q({1, 2, 3, 4, 5, 7, 8, 9}, (1..17) \cup {31, 32, 33}), 1..4, 1..4, {2, 4, 8}, {1, 2}, {"mix", "const"}, 1800, Q(15, 6))
    \o Many(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 7, 8}, 1..3, 1..3, {2, 4}, {1}, {"mix", "zero"}, 1900, Q(7, 3)), 1, Mut)
    \o Many(Grid({"12289"}, {1}, {2, 3, 4, 5}, 1..2, 1..3, {2}, {1}, {"mix"}, 2000, Q(2, 1)), Q(1, 6), Script)
    \o Long({"40961"}, 2060, Q(27, 3))
    \o Tiny(2050, Q(13, 5))
    \o Wide({"12289", "40961"}, 2800, Q(61, 11))
    \o Vast({"40961"}, 2850, Q(7, 2))
    \o Far({"40961"}, 3200, Q(5, 1))
\* changes to the verifier's instance
IMuts == << << <<"bcval", 0>> >>, << <<"bcval", 1>> >>, << <<"bcrow", 0, 1>> >>, << <<"bcrow", 1, 2>> >>, << <<"bcreg", 0, 1>> >>, << <<"bcdrop", 0>> >>, << <<"bcdrop", 1>> >>,
            << <<"bcswap", 1>> >>, << <<"bctwice", 0>> >>, << <<"addbc", 0, 1, 7>> >>, << <<"addbc", 1, 0, 0>> >>, << <<"const", 0, 1>> >>, << <<"const", 1, 5>> >>,
            << <<"coef", 0, 0>> >>, << <<"coef", 0, 1>> >>, << <<"coef", 1, 0>> >>, << <<"term", 0, 1>> >>, << <<"term", 1, 0>> >>, << <<"drop", 0>> >>, << <<"drop", 1>> >>,
            << <<"swap", 1>> >>, << <<"twice", 0>> >>, << <<"scale", 0, 3>> >>, << <<"rows", 1, 0>> >>, << <<"rows", 0, 1>> >>, << <<"rows", 4, 0>> >>,
            << <<"span", 0, 1>> >>, << <<"span", 0, 2>> >>, << <<"start", 0, 1>> >>, << <<"start", 0, 0>> >>, << <<"bcswap", 1>>, <<"bcval", 0>> >>, << <<"bcdrop", 0>>, <<"addbc", 0, 0, 3>> >>, << >> >>
IMut(s, j) == s @@ ("imut" :> IMuts[1 + ((7 * j + s.gen.seed + s.gen.rows) % Len(IMuts))])
C23 == IF Prop # "C23" THEN <<>> ELSE Many(Clean(Grid({"12289", "40961"}, {1, 3}, {2, 3, 4, 5, 7, 8, 9}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4}, {"mix", "zero", "const"}, 2100, Q(15, 12))), Q(3, 6), IMut)
    \o Many(Clean(Grid({"stark"}, {1, 2}, {2, 3, 4, 5, 6, 8, 13}, 1..3, 1..4, {2, 4, 8}, {1, 2}, {"mix", "zero", "const"}, 2200, Q(5, 5))), Q(5, 16), IMut)
    \o Many(Clean(Wide({"12289", "40961"}, 3500, Q(39, 17))), Q(1, 4), IMut) \o Many(Clean(Far({"40961", "stark"}, 3600, Q(5, 3))), Q(1, 3), IMut)

\* histories: every one of three calls over a small alphabet, and longer ones
Calls == {<<"p", 0>>, <<"p", 1>>, <<"p", 2>>} \cup {<<"v", k, t>> : k \in 0..2, t \in {0, 1, 3, 4, 9}}
CallSeq == IF Prop # "C24" THEN <<>> ELSE S2(Calls)
Short == IF Prop # "C24" THEN <<>> ELSE Thin(S2([1..3 -> Calls]), Q(97, 19))
LongHist(j) == [i \in 1..(6 + (j % 15)) |-> CallSeq[1 + ((Mix(31 * j + 7 * i) \div 3) % Len(CallSeq))]] \o << <<"v", 0, 0>>, <<"p", 0>>, <<"v", 1, j % 10>>, <<"v", 0, j % 10>>, <<"v", 0, 0>> >>
Threads(s) == SelectSeq(<<1, 2, 3, 4, 5, 7, 8, 16, 31>>, LAMBDA c : NoD1([s EXCEPT !.cpus = c]))
Hist(s, st) == [s EXCEPT !.op = "hist"] @@ ("steps" :> st) @@ ("cpulist" :> Threads(s))
HistG(k0, m) == Clean(Grid({"stark", "12289"}, {1, 3, 8}, {2, 3, 4, 5, 8, 13, 16, 32}, 1..3, 1..4, {2, 4, 8}, {1, 2, 4}, {"mix"}, k0, m))
HistW(k0, m) == Clean(Thin(Sel({Base(f, c, lde, out, GX(rows, regs, deg, k0 + 13 * rows + 5 * regs + 3 * deg + lde)) :
     f \in {"stark", "40961"}, c \in {1, 4, 8}, lde \in {2, 8, 16}, out \in {1, 4, 16}, rows \in {20, 33, 64, 128}, regs \in {1, 4, 12}, deg \in {1, 2, 5}}), m))
C24 == IF Prop # "C24" THEN <<>> ELSE LET a == HistG(2300, Q(15, 9)) b == HistG(2400, Q(15, 9)) IN
       [i \in 1..Len(Short) |-> Hist(a[1 + ((i - 1) % Len(a))], Short[i])]
    \o [i \in 1..Len(b) |-> Hist(b[i], LongHist(i))]
    \o LET w == HistW(2900, Q(43, 17)) IN [i \in 1..Len(w) |-> Hist(w[i], LongHist(7 * i))]

Scenarios == CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03 [] Prop = "C04" -> C04 [] Prop = "C05" -> C05
               [] Prop = "C06" -> C06 [] Prop = "C07" -> C07 [] Prop = "C17" -> C17 [] Prop = "C18" -> C18
               [] Prop = "C23" -> C23 [] Prop = "C24" -> C24
ASSUME Write(Seeded(Scenarios))
=============================================================================
