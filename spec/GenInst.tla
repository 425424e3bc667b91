------------------------------- MODULE GenInst -------------------------------
(* Instances, traces and building programs the real code is driven through *)
EXTENDS Gen

Flds == {"97", "257", "12289", "40961"}
G(rows, regs, deg, style, sd) == [rows |-> rows, regs |-> regs, deg |-> deg, style |-> style, extra |-> 1 + (sd % 4), bcs |-> 1 + (sd % 6),
                                  maxstep |-> 1 + (sd % 5), spanx |-> sd % 5, startx |-> (sd \div 3) % 7, seed |-> Seed * 1000 + sd]
U(s, e) == [r |-> 0, s |-> s, e |-> e, c |-> 1]
\* all traces of one register over three values, against constraints with every row range
Small(n, d, start, span, bc) ==
  S2({[op |-> "arp", f |-> "97", cpus |-> 1, cells |-> FALSE,
       inst |-> [rows |-> n, regs |-> 1,
                 cons |-> << [c |-> 0, start |-> start, span |-> span, terms |-> << [uni |-> TRUE, u |-> << U(d, 1) >>], [c |-> -1, u |-> << U(0, 2) >>, uni |-> FALSE] >>] >>,
                 bc |-> bc], witness |-> << w >>] : w \in [1..n -> {0, 1, 96}]})
Bc(row, v) == [r |-> 0, row |-> row, v |-> v, has |-> TRUE]
\* many rows, registers, constraints and boundary conditions, high degrees, long steps, late starts; some cells of the trace changed
GW(rows, regs, deg, sd) == [G(rows, regs, deg, "mix", sd) EXCEPT !.extra = IF sd % 3 = 0 THEN 14 ELSE 2 + (sd % 4), !.bcs = IF sd % 2 = 0 THEN 30 ELSE 2 + (sd % 5),
                              !.maxstep = 1 + (sd % 23), !.spanx = (sd \div 2) % 17, !.startx = (sd \div 5) % 29]
Light(s) == s.gen.rows * (s.gen.regs + s.gen.extra) * (2 + s.gen.deg) <= 60000
Large(rowss, m) == Thin(SelectSeq(S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, cellmax |-> IF rows > 300 THEN 6 ELSE 14, gen |-> GW(rows, regs, deg, 7 * rows + 3 * regs + deg + 5 * c)] :
           f \in {"12289", "40961"}, c \in {1, 2, 3, 8, 16}, rows \in rowss, regs \in {1, 2, 8, 17, 40}, deg \in {1, 2, 5, 9, 16}}), Light), m)
     \o Thin(S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, cellmax |-> 14, imut |-> << m1 >>, gen |-> GW(rows, regs, deg, 7 * rows + 3 * regs + deg + 5 * c)] :
           f \in {"12289"}, c \in {1, 3, 8}, rows \in {33, 100, 257}, regs \in {2, 9}, deg \in {2, 3},
           m1 \in {<<"bcval", 7>>, <<"bcnone", 3>>, <<"const", 2, 1>>, <<"span", 0, 40>>, <<"start", 1, 50>>, <<"start", 0, 0>>, <<"addbc", 1, 299, 5>>, <<"coef", 3, 1>>, <<"bcrow", 4, 64>>, <<"bcreg", 2, 1>>}}), m \div 2)
\* each count beyond what a byte holds: power, step, start, span, register, constraints, boundary conditions
FarG(rows, regs, deg, step, spanx, start, extra, bcs, sd) == [G(rows, regs, deg, "mix", sd) EXCEPT !.maxstep = step, !.spanx = spanx, !.startx = start, !.extra = extra, !.bcs = bcs] @@ [far |-> TRUE]
Far == S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, cellmax |-> 8, gen |-> g] : f \in {"12289", "40961"}, c \in {1, 4}, g \in
      UNION {{FarG(3, 2, d, 1, 1, 0, 2, 3, d) : d \in {17, 31, 64, 100, 128, 255, 256, 257, 258, 300, 1000, 5000}},
             {FarG(n, 2, 2, n \div 2, 2, 1, 2, 3, n) : n \in {40, 130, 256, 258, 513, 520, 600}}, {FarG(n, 2, 2, 1, 2, n \div 2, 2, 3, n) : n \in {40, 130, 256, 258, 513, 520, 600}},
             {FarG(n, 2, 2, 1, n \div 2, 2, 2, 3, n) : n \in {40, 130, 256, 258, 513, 520, 600}},
             {FarG(4, r, 2, 1, 1, 0, 2, 3, r) : r \in {64, 127, 128, 129, 200, 255, 256, 257, 300}}, {FarG(5, 2, 3, 1, 1, 0, x, 3, x) : x \in {64, 128, 255, 256, 300}},
             {FarG(9, 3, 2, 1, 1, 0, 1, b, b) : b \in {64, 128, 255, 256, 257, 300}}}})
Bumped == S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, bump |-> b, gen |-> G(rows, regs, deg, "mix", 7 * rows + 3 * regs + deg + b)] :
           f \in Flds, c \in {1, 3}, rows \in {3, 6, 9}, regs \in {1, 3}, deg \in {1, 3}, b \in {1, 8, 24, 25, 32, 45}})
C15 == FlattenSeq(S2({Small(n, d, st, sp, <<>>) : n \in 2..Q(4, 5), d \in 0..2, st \in 0..3, sp \in 1..2}))
    \o FlattenSeq(S2({Small(3, 1, 0, 1, << Bc(r, v) >>) : r \in 0..2, v \in {0, 1}}))
    \o FlattenSeq(S2({Small(2, 1, 0, 1, << Bc(0, 1), [Bc(1, 0) EXCEPT !.has = FALSE] >>)}))
    \o S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, gen |-> G(rows, regs, deg, style, 7 * rows + 3 * regs + deg + 31 * k)] :
           f \in Flds, c \in {1, 4}, rows \in Q((1..10) \cup {13, 16}, 1..20), regs \in 1..3, deg \in 1..4, style \in {"mix", "const", "zero"}, k \in 1..Q(1, 4)})
    \o S2({[op |-> "arp", f |-> f, cpus |-> c, cells |-> TRUE, gen |-> G(rows, regs, deg, "mix", 7 * rows + 3 * regs + deg)] :
           f \in {"40961"}, c \in {1, 3}, rows \in {31, 32, 33, 64}, regs \in {1, 2, 4, 6}, deg \in Q({2, 5}, 1..6)})
    \o S2({[op |-> "arp", f |-> "97", cpus |-> 2, cells |-> TRUE, randw |-> k, gen |-> G(4 + (k % 4), 2, 2, "mix", k)] : k \in 1..Q(150, 400)})
    \o S2({[op |-> "arp", f |-> "257", cpus |-> 2, cells |-> TRUE, imut |-> << m >>, gen |-> G(3 + (k % 6), 1 + (k % 3), 1 + (k % 3), "mix", 100 + k)] :
           k \in 1..Q(20, 150), m \in {<<"bcnone", 0>>, <<"bcval", 0>>, <<"bcval", 1>>, <<"span", 0, 1>>, <<"span", 0, 3>>, <<"span", 1, 2>>, <<"start", 0, 0>>,
                                       <<"start", 0, 2>>, <<"start", 1, 9>>, <<"const", 0, 1>>, <<"const", 1, -1>>, <<"span", 0, 0>>}})
    \o Large({17, 31, 40, 64, 65, 100, 128, 200}, Q(9, 2)) \o Large({256, 257, 500, 512}, Q(29, 5)) \o Far \o Bumped \o Large({1000, 1024, 1500, 2048, 4096}, Q(71, 19))
Wide == S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> s, gen |-> G(rows, regs, 2, "mix", rows + regs)] :
           f \in {"12289", "40961"}, c \in Q({1, 3, 8}, Cpus), rows \in {64, 65, 100, 127, 128, 129, 256, 257, 500, 1000}, regs \in {1, 3, 16}, s \in {"ok"}})
     \o S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> s, gen |-> G(rows, regs, 2, "mix", rows + regs)] :
           f \in {"12289"}, c \in {1, 8}, rows \in {31, 32, 33, 64, 100}, regs \in {1, 7}, s \in {"dropreg", "addreg", "droprow", "addrow", "ragged", "ragged+", "padded", "ragged0", "raggedmid", "moved"}})
C16 == S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> "ok", gen |-> G(rows, regs, 2, "mix", rows + regs)] :
           f \in Flds \ {"97"}, c \in Q({1, 3, 8}, Cpus), rows \in Q((1..17) \cup {31, 32, 33, 63}, 1..70), regs \in {1, 2, 5, 9}})
    \o S2({[op |-> "wpoly", f |-> "97", cpus |-> c, shape |-> "ok", gen |-> G(rows, regs, 2, "mix", rows + regs)] : c \in {1, 3}, rows \in 1..32, regs \in {1, 3, 4}})
    \o S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> s, gen |-> G(rows, regs, 2, "mix", rows + regs)] :
           f \in {"257", "12289"}, c \in {1, 3}, rows \in Q({2, 3, 4, 5, 7, 8, 9, 16}, 2..20), regs \in {2, 3},
           s \in {"dropreg", "addreg", "droprow", "addrow", "ragged", "ragged+", "padded", "ragged0", "raggedmid", "moved"}})
    \o Wide
    \o S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> "ok", gen |-> G(rows, regs, 1, "mix", rows + regs)] :
           f \in {"40961"}, c \in {1, 4, 8}, rows \in Q({1025, 2048, 4000, 4096}, {1025, 2047, 2048, 2049, 4000, 4095, 4096, 8000, 8192}), regs \in {1, 2}})
    \o S2({[op |-> "wpoly", f |-> f, cpus |-> c, shape |-> "ok", gen |-> G(rows, regs, 1, "mix", rows + regs)] :
           f \in {"12289", "257"}, c \in {1, 3, 16}, rows \in {2, 5, 16}, regs \in {33, 64, 100, 255, 256, 257, 300}})
C21 == S2({[op |-> "build", f |-> f, n |-> n, rep |-> k] : f \in Flds, n \in 0..8, k \in 1..Q(150, 400)})
    \o S2({[op |-> "build", f |-> f, n |-> n, rep |-> k, big |-> TRUE] : f \in Flds, n \in {1, 2, 5, 12, 20}, k \in 1..Q(80, 200)})
    \o S2({[op |-> "build", f |-> f, n |-> n, rep |-> k, big |-> TRUE] : f \in Flds, n \in {40, 80, 150, 300}, k \in 1..Q(6, 12)})
    \o S2({[op |-> "build", f |-> "97", steps |-> s] : s \in UNION {[1..d ->
             {<<"addc", 5>>, <<"subc", 7>>, <<"addu", [k |-> "r", r |-> 0, ops |-> << <<"mul", 3>>, <<"step", 1>> >>]>>,
              <<"subu", [k |-> "r", r |-> 0, ops |-> << <<"pow", 2>>, <<"pow", 3>>, <<"mulv", 2>> >>]>>,
              <<"addp", [ops |-> << <<"u", [k |-> "r", r |-> 1, ops |-> << <<"mul", 4>> >>]>>, <<"f", 9>>, <<"u", [k |-> "r", r |-> 0, ops |-> << <<"step", 2>>, <<"pow", 2>> >>]>> >>]>>,
              <<"subp", [ops |-> << <<"p", [ops |-> << <<"fv", 6>>, <<"from", 2, [k |-> "a", r |-> 0, ops |-> << <<"mul", 5>> >>]>> >>]>>,
                                    <<"u", [k |-> "r", r |-> 1, ops |-> <<>>]>> >>]>>}] : d \in 0..3}})
Bld(w) == [which |-> w]
C22 == S2({[op |-> "builder", f |-> f, cpus |-> 1, builder |-> [which |-> w, c0 |-> c0, c1 |-> c1, n |-> n]] :
           f \in {"97", "40961"}, w \in {"vdf", "cubic"}, c0 \in Q({0, 1, 2, 11, 96}, 0..96), c1 \in Q({0, 1, 5, 95}, {0, 1, 2, 5, 60, 95, 96}), n \in Q((0..9) \cup {15, 16, 17, 31, 32}, (0..17) \cup {31, 32, 33, 63, 64, 65})})
    \o S2({[op |-> "builder", f |-> f, cpus |-> c, cellmax |-> 40, builder |-> [which |-> w, c0 |-> c0, c1 |-> 5, n |-> n]] :
           f \in {"257", "40961"}, w \in {"vdf", "cubic", "fib"}, c \in {1, 5}, c0 \in {1, 11}, n \in Q({64, 100, 127, 255, 256, 511}, {64, 100, 127, 128, 200, 255, 256, 257, 511, 512, 1023})})
    \o S2({[op |-> "builder", f |-> f, cpus |-> 1, builder |-> [which |-> "fib", c0 |-> 1, c1 |-> 1, n |-> n, final |-> fa[1], at |-> fa[2]]] :
           f \in {"97", "257", "40961"}, n \in 4..Q(12, 20), fa \in {<<5, 3>>, <<8, 4>>, <<1, 0>>, <<2, 1>>, <<3, 2>>, <<6, 3>>, <<1, 1>>}})
    \o S2({[op |-> "builder", f |-> f, cpus |-> 1, builder |-> [which |-> "fib", c0 |-> 1, c1 |-> 1, n |-> n, final |-> fa[1], at |-> fa[2]]] :
           f \in {"97", "257", "40961"}, n \in 12..Q(20, 40), fa \in {<<144, 10>>, <<233, 11>>, <<377, 12>>, <<145, 10>>, <<0, 12>>, <<89, 9>>}})
    \o S2({[op |-> "builder", f |-> f, cpus |-> 1, builder |-> [which |-> "fib", c0 |-> 1, c1 |-> 1, n |-> n]] : f \in {"97", "257", "40961"}, n \in 0..Q(20, 40)})
    \o S2({[op |-> "trace", f |-> "257", npc |-> x[1], nr |-> x[2], na |-> x[3], nk |-> x[4], rows |-> rows, ncons |-> 3, nbc |-> 3, rep |-> k] :
           x \in (0..2) \X (0..3) \X (0..2) \X (0..2), rows \in {2, 3, 5}, k \in 1..Q(4, 6)})
    \o S2({[op |-> "trace", f |-> "40961", npc |-> x[1], nr |-> x[2], na |-> x[3], nk |-> x[4], rows |-> rows, ncons |-> 6, nbc |-> 8, rep |-> k] :
           x \in {<<1, 5, 4, 3>>, <<3, 4, 4, 4>>, <<0, 5, 0, 5>>, <<2, 0, 5, 0>>, <<5, 5, 5, 5>>}, rows \in {2, 7, 16, 17}, k \in 1..Q(6, 12)})
    \o S2({[op |-> "trace", f |-> "40961", many |-> TRUE, npc |-> x[1], nr |-> x[2], na |-> x[3], nk |-> x[4], rows |-> rows, ncons |-> 20, nbc |-> 30, rep |-> k] :
           x \in {<<1, 30, 4, 3>>, <<2, 12, 12, 12>>, <<0, 0, 25, 0>>, <<12, 11, 10, 9>>, <<0, 39, 39, 1>>, <<9, 2, 17, 33>>}, rows \in {2, 33, 150}, k \in 1..Q(1, 6)})
    \o S2({[op |-> "trace", f |-> "40961", many |-> TRUE, npc |-> x[1], nr |-> x[2], na |-> x[3], nk |-> x[4], rows |-> 3, ncons |-> 60, nbc |-> y, rep |-> k] :
           x \in {<<1, 300, 4, 3>>, <<0, 256, 2, 257>>, <<120, 120, 110, 100>>, <<3, 7, 300, 0>>}, y \in {10, 300}, k \in 1..Q(1, 3)})
Scenarios == CASE Prop = "C15" -> C15 [] Prop = "C16" -> C16 [] Prop = "C21" -> C21 [] Prop = "C22" -> C22
ASSUME Write(Seeded(Scenarios))
=============================================================================
