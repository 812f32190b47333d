------------------------------- MODULE WriterMC -------------------------------
(* Two streams of every kind in nested and separate folders, with and without *)
(* clearing, over full and empty folders, all interleavings; and the folder   *)
(* situations that are replayed into the code.                                *)
EXTENDS Writer, Json, IOUtils
Kinds == {"scalar", "vector", "stdout-scalar", "stdout-vector"}
FolderSet == {<<"out">>, <<"out", "in">>, <<"other">>}
St(kind, f, clear, meta, name) ==
    [file |-> kind \in {"scalar", "vector"}, vec |-> kind \in {"vector", "stdout-vector"}, tsv |-> FALSE, folder |-> f, name |-> name,
     clear |-> clear, meta |-> meta, ghost |-> FALSE]
Foreign == { <<"top">>, <<"out", "x">>, <<"out", "in", "y">>, <<"other", "z">>, <<"out2", "w">>, <<"out", "s.csv">>, <<"out", "v_0.csv">>, <<"other", "v_7.csv">> }
Dirs == { <<"out">>, <<"out", "in">>, <<"other">>, <<"out2">> }
Full == [p \in Foreign \cup Dirs |-> IF p \in Dirs THEN Dir ELSE Thing]
None == [p \in {<<"top">>} |-> Thing]
Deep == IOEnv.DEEP = "1"
MCInit ==
    /\ \E k1 \in Kinds, k2 \in Kinds, f1 \in FolderSet, f2 \in FolderSet, c1 \in BOOLEAN, c2 \in BOOLEAN, m \in (IF Deep THEN BOOLEAN ELSE {TRUE}) :
          /\ (k1 \in {"stdout-scalar", "stdout-vector"} /\ ~Deep) => f1 = <<"out">>
          /\ (k2 \in {"stdout-scalar", "stdout-vector"} /\ ~Deep) => f2 = <<"out">>
          /\ ss = << St(k1, f1, c1, m, "s"), St(k2, f2, c2, ~m, "v") >>
    /\ n = 1 /\ fail \in 0..1 /\ s = (IF Deep THEN 6 ELSE 5)
    /\ tree0 \in (IF Deep THEN {Full, None} ELSE {Full}) /\ tree = tree0 /\ out = <<>> /\ ph = "open" /\ i = 1 /\ k = 0 /\ pos = <<>> /\ lock = 0
    /\ \E q \in {<<>>} \cup (IF k = 0 /\ (Deep \/ ss[1].clear = ss[2].clear) THEN Own(ss, 2, n) ELSE {}) : bad = IF q = <<>> THEN {} ELSE {q}
MCSpec == MCInit /\ [][WNext]_wr

\* generation: one step from each situation prints it
Draw(x) == RandomElement(x)
Pres == << "out/", "out/foreign.txt", "out/in/", "out/in/deep.dat", "out/sub/x/y.dat", "out/link@../keep", "out/in/up@../../keep/precious.txt",
           "keep/precious.txt", "top.txt", "other/o.txt", "other/in/q", "out2/file", "outside/z", "out.txt", "in/n.txt", "other/" >>
Pick(f) == SelectSeq(Pres, LAMBDA x : RandomElement(1..10) <= f)
GK == {"scalar", "vector", "stdout-scalar", "stdout-vector"}
GF == {<<"out">>, <<"out", "in">>, <<"other">>, <<"out", "in", "most">>, <<"new", "deeper">>}
GenStream(kd, f, c) == [kind |-> kd, folder |-> f, clear |-> c, meta |-> Draw(BOOLEAN)]
GInit == /\ ss \in [1..2 -> {<<kd, f, c>> : kd \in GK, f \in GF, c \in BOOLEAN}] /\ n = 0 /\ fail = 0 /\ s = 0 /\ tree0 = <<>> /\ tree = <<>>
         /\ out = <<>> /\ ph = "gen" /\ i = 0 /\ k = 0 /\ pos = <<>> /\ lock = 0 /\ bad = {}
GNext == /\ ph = "gen" /\ ph' = "over" /\ UNCHANGED <<ss, n, fail, s, tree0, tree, out, i, k, pos, lock, bad>>
         /\ LET outs == Draw(1..4)
                blocked == Draw(1..12) = 1
                extra == Draw(0..1)
                hinder == ~blocked /\ Draw(1..3) = 1
                three == << GenStream(ss[1][1], ss[1][2], ss[1][3]), GenStream(ss[2][1], ss[2][2], ss[2][3]) >>
                         \o (IF extra = 1 THEN << GenStream(Draw(GK), Draw(GF), Draw(BOOLEAN)) >> ELSE <<>>)
            IN PrintT("GEN " \o ToJson([streams |-> three, n |-> outs, fail |-> IF Draw(1..4) = 1 THEN Draw(1..outs) ELSE 0,
                     obst |-> IF hinder THEN <<[i |-> Draw(LET fs == {x \in DOMAIN three : three[x].kind \in {"scalar", "vector"}} IN IF fs = {} THEN {1} ELSE fs), k |-> Draw(-1..outs), how |-> Draw({"dir", "full", "locked"})]>> ELSE <<>>,
                     stale |-> ~blocked /\ Draw(BOOLEAN), pre |-> IF blocked THEN <<Draw({"out", "new", "other"}), "top.txt", "keep/precious.txt">> ELSE Pick(Draw({0, 5, 9}))]))
GSpec == GInit /\ [][GNext]_wr
=============================================================================
