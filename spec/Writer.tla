-------------------------------- MODULE Writer --------------------------------
(* The transition system of a run with concurrently writing output streams.   *)
EXTENDS Streams

(* --- a run with concurrently writing streams (C16, C17, C18, C20) ---       *)
Dir == <<<<-1, 0, 0>>>>
Thing == <<<<-2, 0, 0>>>>
MetaLine == <<-3, 0, 0>>
VARIABLES ss,      \* the streams
          n, fail, s,   \* outputs, failing step (0: none), cells
          tree0,   \* the folders before the run: path -> content
          tree,    \* now; content is Dir, a foreign Thing, or the lines of a file
          out,     \* lines on the terminal
          ph, i, k, \* phase, stream being opened, snapshot
          pos,     \* lines each stream has written of this snapshot; -1 not begun, -2 finished
          lock,    \* stream that holds the terminal, 0 for none
          bad      \* paths that cannot be opened or written
wr == <<ss, n, fail, s, tree0, tree, out, ph, i, k, pos, lock, bad>>
CONSTANTS Locking, \* whether a stream keeps the terminal until its block is complete
          Noticing \* whether a write that fails ends the run

N == 1..Len(ss)
Has(p) == p \in DOMAIN tree
With(t, ps, c) == [p \in DOMAIN t \cup ps |-> IF p \in ps THEN c ELSE t[p]]
MakeDirs(t, ps) == [p \in DOMAIN t \cup ps |-> IF p \in DOMAIN t THEN t[p] ELSE Dir]
PathsTo(f) == {SubSeq(f, 1, x) : x \in 1..Len(f)}
\* the folders of the streams are opened one after the other
OpenFolder ==
    /\ ph = "open" /\ i <= Len(ss)
    /\ LET st == ss[i]
           t1 == IF st.file /\ st.clear /\ Has(st.folder) THEN [p \in {x \in DOMAIN tree : ~Under(x, st.folder)} |-> tree[p]] ELSE tree
       IN tree' = IF st.file THEN MakeDirs(t1, PathsTo(st.folder)) ELSE tree
    /\ i' = i + 1
    /\ UNCHANGED <<ss, n, fail, s, tree0, out, ph, k, pos, lock, bad>>
\* clearing one folder may have removed a nested one that was opened before
Ensure ==
    /\ ph = "open" /\ i > Len(ss)
    /\ tree' = MakeDirs(tree, Folders(ss)) /\ ph' = "meta"
    /\ UNCHANGED <<ss, n, fail, s, tree0, out, i, k, pos, lock, bad>>
Metas == {MetaPath(ss[x]) : x \in {y \in N : ss[y].file /\ ss[y].meta}}
\* a folder that is cleared takes what is in the way with it
InWay(p) == p \in bad /\ ~Gone(ss, p)
Meta ==
    /\ ph = "meta" /\ (Noticing => ~\E p \in Metas : InWay(p))
    /\ tree' = With(tree, {p \in Metas : ~InWay(p)}, <<MetaLine>>)
    /\ out' = [x \in 1..Cardinality({y \in N : ~ss[y].file /\ ss[y].meta}) |-> MetaLine]
    /\ ph' = "write" /\ pos' = [x \in N |-> -1]
    /\ UNCHANGED <<ss, n, fail, s, tree0, i, k, lock, bad>>
Hindered(x) == ss[x].file /\ InWay(SnapPath(ss[x], k, n))
Begin(x) ==
    /\ ph = "write" /\ pos[x] = -1 /\ ~Hindered(x)
    /\ IF ss[x].file
       THEN LET p == SnapPath(ss[x], k, n) IN
            /\ tree' = IF ss[x].vec \/ k = 0 THEN With(tree, {p}, <<>>) ELSE IF Has(p) THEN tree ELSE With(tree, {p}, <<>>)
            /\ UNCHANGED lock
       ELSE /\ Locking => lock = 0
            /\ lock' = x /\ UNCHANGED tree
    /\ pos' = [pos EXCEPT ![x] = 0]
    /\ UNCHANGED <<ss, n, fail, s, tree0, out, ph, i, k, bad>>
\* the run ends with an error; other streams may be anywhere in their blocks
GiveUp ==
    /\ Noticing
    /\ \/ ph = "meta" /\ \E p \in Metas : InWay(p)
       \/ ph = "write" /\ \E x \in N : pos[x] = -1 /\ Hindered(x)
    /\ ph' = "failed"
    /\ UNCHANGED <<ss, n, fail, s, tree0, tree, out, i, k, pos, lock, bad>>
Skip(x) ==
    /\ ~Noticing /\ ph = "write" /\ pos[x] = -1 /\ Hindered(x)
    /\ pos' = [pos EXCEPT ![x] = -2]
    /\ UNCHANGED <<ss, n, fail, s, tree0, tree, out, ph, i, k, lock, bad>>
Text(x, l) == IF HasHead(ss[x], k) THEN <<x, k, l - 1>> ELSE <<x, k, l>>      \* line 0 is the header
Line(x) ==
    /\ ph = "write" /\ pos[x] >= 0 /\ pos[x] < BlockLen(ss[x], k, s)
    /\ pos' = [pos EXCEPT ![x] = @ + 1]
    /\ IF ss[x].file
       THEN LET p == SnapPath(ss[x], k, n) IN tree' = [tree EXCEPT ![p] = Append(@, Text(x, pos[x] + 1))] /\ UNCHANGED out
       ELSE out' = Append(out, Text(x, pos[x] + 1)) /\ UNCHANGED tree
    /\ UNCHANGED <<ss, n, fail, s, tree0, ph, i, k, lock, bad>>
Close(x) ==
    /\ ph = "write" /\ pos[x] = BlockLen(ss[x], k, s)
    /\ pos' = [pos EXCEPT ![x] = -2]
    /\ lock' = IF ss[x].file THEN lock ELSE 0
    /\ UNCHANGED <<ss, n, fail, s, tree0, tree, out, ph, i, k, bad>>
NextSnap ==
    /\ ph = "write" /\ \A x \in N : pos[x] = -2
    /\ IF k + 1 < Snapshots(n, fail)
       THEN k' = k + 1 /\ pos' = [x \in N |-> -1] /\ UNCHANGED ph
       ELSE ph' = "done" /\ UNCHANGED <<k, pos>>
    /\ UNCHANGED <<ss, n, fail, s, tree0, tree, out, i, lock, bad>>
WNext == OpenFolder \/ Ensure \/ Meta \/ NextSnap \/ GiveUp \/ \E x \in N : Begin(x) \/ Skip(x) \/ Line(x) \/ Close(x)

Cnt == Snapshots(n, fail)
\* what a stream writes does not mention any other stream
RECURSIVE Alone(_, _, _)
Alone(x, a, b) == IF a > b THEN <<>>
    ELSE (IF HasHead(ss[x], a) THEN <<<<x, a, 0>>>> ELSE <<>>) \o [j \in 1..Rows(ss[x], s) |-> <<x, a, j>>] \o Alone(x, a + 1, b)
Complete == ph = "done" => \A x \in {y \in N : ss[y].file} :
    IF ss[x].vec THEN \A a \in 0..Cnt - 1 : Has(SnapPath(ss[x], a, n)) /\ tree[SnapPath(ss[x], a, n)] = Alone(x, a, a)
    ELSE Has(SnapPath(ss[x], 0, n)) /\ tree[SnapPath(ss[x], 0, n)] = Alone(x, 0, Cnt - 1)
\* a run that is cut short by a write has all earlier snapshots
Earlier == ph = "failed" => \A x \in {y \in N : ss[y].file} : \A a \in 0..k - 1 :
    IF ss[x].vec THEN Has(SnapPath(ss[x], a, n)) /\ tree[SnapPath(ss[x], a, n)] = Alone(x, a, a)
    ELSE LET want == Alone(x, 0, a)  got == tree[SnapPath(ss[x], 0, n)] IN Len(got) >= Len(want) /\ SubSeq(got, 1, Len(want)) = want
Survive == \A p \in DOMAIN tree0 : (~Gone(ss, p) /\ p \notin Own(ss, Cnt, n)) => Has(p) /\ tree[p] = tree0[p]
Contained == \A p \in DOMAIN tree : \/ p \in Folders(ss) \/ p \in Own(ss, Cnt, n)
                                    \/ p \in DOMAIN tree0 /\ tree[p] = tree0[p]
                                    \/ ph = "open" /\ p \in DOMAIN tree0
Emptied == ph = "meta" => \A p \in DOMAIN tree0 : Gone(ss, p) => ~Has(p) \/ p \in Folders(ss)
Placed == ph \notin {"open"} => \A f \in Folders(ss) : Has(f)
\* lines of one block on the terminal follow each other
Blocks == \A a \in 1..Len(out) - 1 : LET u == out[a]  v == out[a + 1] IN
    u[1] # v[1] => \A b \in a + 2..Len(out) : ~(out[b][1] = u[1] /\ out[b][2] = u[2])
Sorted == \A x \in {y \in N : ss[y].file /\ ss[y].vec} : \A a \in 0..n : NumDigits(n) >= NumDigits(a)
=============================================================================
