-------------------------------- MODULE GenFri --------------------------------
(* Words the real low-degree test is driven through                        *)
EXTENDS Gen
F(f, deg, lde, out, cpus, in) == [op |-> "fri", f |-> f, deg |-> deg, lde |-> lde, out |-> out, cpus |-> cpus, in |-> in]
Room(f) == CASE f = "257" -> 256 [] f = "12289" -> 4096 [] f = "40961" -> 8192 [] f = "stark" -> 1000000
Fit(s) == s.out <= s.deg /\ s.deg * s.lde <= Room(s.f) /\ s.deg * s.lde >= 2
Grid(fs, degs, ldes, outs, cpus, ins, m) ==
  Thin(SelectSeq(S2({F(f, d, l, o, c, i) : f \in fs, d \in degs, l \in ldes, o \in outs, c \in cpus, i \in ins}), Fit), m)
With(s, r) == [k \in 1..Len(s) |-> s[k] @@ r]
Outs == {1, 2, 4, 8, 16, 32}
Ins == {"rand", "one", "last", "zero", "count"}
C19 == With(Grid({"12289", "40961", "257"}, {1, 2, 4, 8, 16, 32} \cup Q({}, {64, 128}), {2, 4, 8, 16} \cup Q({}, {1, 32}), Outs, Q({1, 2, 3, 8}, Cpus), Ins, Q(5, 2)), [allpos |-> 0])
    \o With(Grid({"12289", "40961"}, {1, 2, 4, 8, 16}, {2, 4}, {1, 2, 4}, {5, 7, 16, 31}, {"rand", "last"}, Q(3, 1)), [allpos |-> 0])
    \o With(Grid({"12289"}, {2, 4, 8, 16}, {2, 4, 8}, Outs, {1, 3}, {"rand"}, 1), [allpos |-> 0, over |-> 1])
    \o With(Grid({"40961"}, {2, 4, 8, 16}, {2, 4, 8}, Outs, {1, 2}, {"rand"}, 1), [allpos |-> 0, noise |-> 2])
    \o With(Grid({"stark"}, {1, 2, 8, 64, 256}, {2, 8, 16}, {1, 2, 8, 64}, {1, 4, 8}, {"rand"}, Q(2, 1)), [allpos |-> 0])
    \o With(Grid({"12289", "40961"}, {64, 128, 256, 512}, {2, 4, 8, 16}, {1, 2, 8, 32, 128}, {1, 8}, {"rand"}, Q(5, 1)), [allpos |-> 0])
    \o With(Grid({"40961"}, {512, 1024, 2048, 4096}, {2, 4, 8}, {1, 16, 64, 256, 512, 1024}, {1, 3, 8}, {"rand"}, Q(11, 1)), [allpos |-> 0])
    \o With(Grid({"stark"}, {512, 1024, 2048}, {2, 4, 16}, {1, 16, 256}, {1, 8}, {"rand"}, Q(5, 1)), [allpos |-> 0])
    \o With(Grid({"12289", "40961", "stark"}, {1, 2, 4, 16}, {64, 128, 256, 512}, {1, 2, 4, 16}, {1, 5}, {"rand"}, Q(7, 1)), [allpos |-> 0])
C20 == With(Grid({"12289", "40961"}, {1, 2, 4, 8, 16}, {2, 4, 8} \cup Q({}, {16, 32}), Outs, {1, 3}, {"rand", "one", "last"}, Q(5, 2)), [allpos |-> Q(32, 64), forge |-> 1])
    \o With(Grid({"12289", "257"}, {1, 2, 4, 8}, {2, 4, 8}, Outs, {1}, {"rand", "zero"}, Q(3, 1)), [allpos |-> 64, forge |-> Q(2, 6)])
    \o With(Grid({"12289"}, {2, 4, 8}, {2, 4, 8}, Outs, {1}, {"rand"}, Q(2, 1)), [allpos |-> 32, forge |-> 1, over |-> 1])
    \o With(Grid({"40961"}, {2, 4, 8}, {2, 4, 8}, Outs, {1}, {"rand"}, Q(2, 1)), [allpos |-> 32, forge |-> 1, noise |-> 1])
    \o With(Grid({"stark"}, {1, 2, 8, 64, 256}, {2, 8, 16}, {1, 2, 8, 64}, {1, 4}, {"rand"}, Q(4, 1)), [allpos |-> 16, forge |-> 1])
    \o With(Grid({"12289", "40961"}, {32, 64, 256}, {2, 4, 16}, {1, 2, 8, 32, 128}, {1}, {"rand"}, Q(3, 1)), [allpos |-> 16, forge |-> 1])
    \o With(Grid({"40961", "stark"}, {512, 1024, 2048}, {2, 4, 8}, {1, 16, 256, 512}, {1, 8}, {"rand"}, Q(7, 1)), [allpos |-> 8, forge |-> 1])
    \o With(Grid({"12289", "40961", "stark"}, {1, 2, 4, 16}, {64, 128, 256, 512}, {1, 2, 4, 16}, {1, 5}, {"rand"}, Q(7, 1)), [allpos |-> 16, forge |-> 1])
Scenarios == CASE Prop = "C19" -> C19 [] Prop = "C20" -> C20
ASSUME Write(Seeded(Scenarios))
=============================================================================
