------------------------------ MODULE WriterTrace -----------------------------
(* Decides recorded runs: "wr" all files, folders and terminal lines of one   *)
(* run, "ind" digests of each stream under several selections of streams.     *)
EXTENDS Streams, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))

SS == e.streams
N == 1..Len(SS)
Cnt == Snapshots(e.n, e.fail)
FilePaths == {e.before[x].p : x \in {y \in 1..Len(e.before) : e.before[y].k = "f"}}
BlockedCase == Blocked(SS, FilePaths)
\* the run loop did what it was told (otherwise the Driver specification reports it)
Usual == Len(e.snaps) = Cnt /\ e.res = (IF e.fail = 0 THEN "ok" ELSE "fault")

(* --- folders (C20) ---                                                      *)
Entry(t, p) == {x \in 1..Len(t) : t[x].p = p}
AfterPaths == {e.after[x].p : x \in 1..Len(e.after)}
BeforePaths == {e.before[x].p : x \in 1..Len(e.before)}
OwnFiles == Own(SS, Cnt, e.n)
SameEntry(a, b) == a.k = b.k /\ a.h = b.h
Kept == \A x \in 1..Len(e.before) : LET b == e.before[x] IN
    (~Gone(SS, b.p) /\ b.p \notin OwnFiles) => \E y \in Entry(e.after, b.p) : SameEntry(b, e.after[y])
Nothing == \A p \in AfterPaths : p \in Folders(SS) \/ p \in OwnFiles \/ (p \in BeforePaths /\ ~Gone(SS, p))
There == \A f \in Folders(SS) : \E y \in Entry(e.after, f) : e.after[y].k = "d"
\* a failing run may have been stopped anywhere, but it leaves foreign things alone
FolderG == [ C20 |-> Kept /\ (BlockedCase \/ (Nothing /\ There)) ]

(* --- files (C17) ---                                                        *)
Had(p) == p \in BeforePaths /\ ~Gone(SS, p)
FileAt(p) == {x \in 1..Len(e.files) : e.files[x].p = p}
\* lines of snapshots a..b
Sum(x, a, b) == IF a > b THEN 0 ELSE (b - a + 1) * Rows(SS[x], e.s) + (IF SS[x].vec THEN b - a + 1 ELSE IF a = 0 THEN 1 ELSE 0)
FilesOf(x) == IF SS[x].vec THEN \A a \in 0..Cnt - 1 : \E f \in FileAt(SnapPath(SS[x], a, e.n)) : Len(e.files[f].lines) = BlockLen(SS[x], a, e.s)
              ELSE \E f \in FileAt(SnapPath(SS[x], 0, e.n)) : Len(e.files[f].lines) = Sum(x, 0, Cnt - 1)
FStreams == {x \in N : SS[x].file}
TStreams == {x \in N : ~SS[x].file}
MetaOk == \A x \in {y \in FStreams : SS[y].meta} : \E f \in FileAt(MetaPath(SS[x])) : e.files[f].same
Banner == IF e.banner THEN 8 ELSE 0
NMeta == Cardinality({y \in TStreams : SS[y].meta})
Body == Banner + NMeta * Len(e.meta)       \* the snapshots begin after this line
MetaShown == /\ Len(e.out) >= Body
             /\ \A c \in 0..NMeta - 1 : \A x \in 1..Len(e.meta) : e.out[Banner + c * Len(e.meta) + x].raw = e.meta[x]
FileG == [ C17 |-> /\ \A x \in FStreams : FilesOf(x)
                   /\ MetaOk /\ MetaShown ]

(* --- contents (C16) ---                                                     *)
Sep(st) == IF Len(st.cols) < 2 THEN "" ELSE IF st.tsv THEN " " ELSE ","
HeadOk(st, ln) == /\ ln.h = st.tsv /\ ln.sep = Sep(st) /\ Len(ln.t) = Len(st.cols)
                  /\ \A c \in 1..Len(st.cols) : ~ln.t[c].n /\ ln.t[c].s = st.cols[c]
TokOk(tok, v, p) == IF v.k = "txt" THEN ~tok.n /\ tok.s = v.s
                    ELSE /\ tok.n /\ Len(tok.d) = p + 1
                         /\ [d |-> tok.d, e |-> tok.e] \in Shown(v, p)
                         /\ IsZero(v) \/ tok.neg = v.neg
ValueAt(st, k, c, j) == LET vs == e.snaps[k + 1][st.cols[c]] IN IF Len(vs) = 1 THEN vs[1] ELSE vs[Cell(st, j)]
RowOk(st, k, j, ln) == /\ ~ln.h /\ ln.sep = Sep(st) /\ Len(ln.t) = Len(st.cols)
                       /\ \A c \in 1..Len(st.cols) : TokOk(ln.t[c], ValueAt(st, k, c, j), st.prec)
\* line b of the block of snapshot k
LineOk(st, k, b, ln) == IF HasHead(st, k) THEN (IF b = 1 THEN HeadOk(st, ln) ELSE RowOk(st, k, b - 1, ln)) ELSE RowOk(st, k, b, ln)
BlockOk(st, k, ls, off) == /\ Len(ls) >= off + BlockLen(st, k, e.s)
                           /\ \A b \in 1..BlockLen(st, k, e.s) : LineOk(st, k, b, ls[off + b])
ContentOf(x) == LET st == SS[x] IN
    IF st.vec THEN \A a \in 0..Cnt - 1 : \E f \in FileAt(SnapPath(st, a, e.n)) : BlockOk(st, a, e.files[f].lines, 0)
    ELSE \E f \in FileAt(SnapPath(st, 0, e.n)) : \A a \in 0..Cnt - 1 : BlockOk(st, a, e.files[f].lines, Sum(x, 0, a - 1))
\* the terminal: blocks of one snapshot in any order
RECURSIVE Lines(_, _)
Lines(todo, k) == IF todo = {} THEN 0 ELSE LET x == CHOOSE y \in todo : TRUE IN Sum(x, 0, k - 1) + Lines(todo \ {x}, k)
Before(k) == Body + Lines(TStreams, k)
RECURSIVE Eat(_, _, _)
Eat(todo, k, off) == todo = {} \/ \E x \in todo : BlockOk(SS[x], k, e.out, off) /\ Eat(todo \ {x}, k, off + BlockLen(SS[x], k, e.s))
InBlocks == \A k \in 0..Cnt - 1 : Eat(TStreams, k, Before(k))
Whole == Len(e.out) = Before(Cnt)
Present == \A k \in 0..Cnt - 1 : \A x \in TStreams : \A b \in 1..BlockLen(SS[x], k, e.s) :
    \E o \in Before(k) + 1..Before(k + 1) : LineOk(SS[x], k, b, e.out[o])
(* --- separation (C18) ---                                                   *)
Shape(ln, st) == Len(ln.t) = Len(st.cols) /\ ln.sep = Sep(st) /\ (ln.h => st.tsv)
Mixed == \E o \in Body + 1..Len(e.out) : \A x \in TStreams : ~Shape(e.out[o], SS[x])
Several == Cardinality(TStreams) > 1
ApartG == [ C18 |-> Several => /\ (Whole /\ ~InBlocks) => ~Present
                               /\ ~Mixed ]
\* lines torn apart by another stream are not blamed on the contents
\* the number of rows is part of the contents where no older file can be the reason for a wrong one
RowsOf(x) == IF SS[x].vec
    THEN \A a \in 0..Cnt - 1 : LET p == SnapPath(SS[x], a, e.n) IN ~Had(p) => \A f \in FileAt(p) : Len(e.files[f].lines) = BlockLen(SS[x], a, e.s)
    ELSE LET p == SnapPath(SS[x], 0, e.n) IN ~Had(p) => \A f \in FileAt(p) : Len(e.files[f].lines) = Sum(x, 0, Cnt - 1)
ContentG == [ C16 |-> /\ \A x \in FStreams : RowsOf(x) /\ (FilesOf(x) => ContentOf(x))
                      /\ (Several /\ Mixed) \/ (Whole /\ (InBlocks \/ Present)) ]
IndG == [ C18 |-> /\ \A a \in 1..Len(e.seen) : e.seen[a].some
                  /\ \A a, b \in 1..Len(e.seen) : e.seen[a].k = e.seen[b].k => e.seen[a].h = e.seen[b].h ]

(* --- something is in the way of a file that has to be written (C17) ---     *)
Obstructed == e.obst # <<>> /\ e.obst \in OwnFiles /\ ~Gone(SS, e.obst)
\* so many snapshots come before it
Stop == IF \E x \in FStreams : SS[x].meta /\ e.obst = MetaPath(SS[x]) THEN 0
        ELSE CHOOSE a \in 0..Cnt - 1 : /\ \E x \in FStreams : e.obst = SnapPath(SS[x], a, e.n)
                                       /\ \A b \in 0..a - 1 : \A x \in FStreams : e.obst # SnapPath(SS[x], b, e.n)
EarlierOk(x) == \A a \in 0..Stop - 1 :
    IF SS[x].vec THEN \E f \in FileAt(SnapPath(SS[x], a, e.n)) : Len(e.files[f].lines) = BlockLen(SS[x], a, e.s) /\ BlockOk(SS[x], a, e.files[f].lines, 0)
    ELSE \E f \in FileAt(SnapPath(SS[x], 0, e.n)) : BlockOk(SS[x], a, e.files[f].lines, Sum(x, 0, a - 1))
\* the run does not pretend to have written it; an error dump that cannot be written may end with either error
StopG == [ C17 |-> /\ e.res = "err" \/ (e.fail > 0 /\ Stop = e.fail /\ e.res = "fault")
                   /\ Stop <= Len(e.snaps)
                   /\ \A x \in FStreams : EarlierOk(x) ]

(* --- every stream gets every snapshot of the run, and no other (C01, C05) -- *)
CountOk(x) == IF SS[x].vec
    THEN /\ \A a \in 0..Cnt - 1 : SnapPath(SS[x], a, e.n) \in AfterPaths
         /\ LET p == SnapPath(SS[x], Cnt, e.n) IN p \in AfterPaths => Had(p)
    ELSE LET p == SnapPath(SS[x], 0, e.n) IN \E f \in FileAt(p) :
         IF Had(p) THEN Len(e.files[f].lines) >= Sum(x, 0, Cnt - 1) ELSE Len(e.files[f].lines) = Sum(x, 0, Cnt - 1)
CountG == LET all == (\A x \in FStreams : CountOk(x)) /\ Whole IN
    [ C01 |-> (e.fail = 0 /\ ~e.direct) => all, C05 |-> (e.fail > 0) => all ]

Kind == (IF BlockedCase THEN "blocked" ELSE IF FStreams = {} THEN "terminal" ELSE IF Cleared(SS) # {} THEN "clearing" ELSE "keeping")
        \o (IF TStreams # {} /\ FStreams # {} THEN "-mixed" ELSE "") \o (IF BlockedCase THEN "" ELSE IF ~Usual THEN "-other" ELSE IF e.fail > 0 THEN "-failing" ELSE "")
Check ==
    CASE e.ev = "wr" ->
            /\ PrintT("CLASS " \o (IF Obstructed THEN "obstructed" ELSE Kind))
            /\ Report(FolderG)
            /\ IF Obstructed /\ ~BlockedCase THEN Report(StopG)
               ELSE IF BlockedCase THEN Report([C17 |-> e.res = "err"])
               ELSE IF ~Usual THEN Report([C17 |-> e.res \in {"ok", "fault"}])
               ELSE Report(FileG) /\ Report(CountG) /\ Report(ContentG) /\ Report(ApartG)
      [] e.ev = "ind" -> Report(IndG) /\ PrintT("CLASS ind")
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
