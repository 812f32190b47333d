-------------------------------- MODULE Streams -------------------------------
(* What the output streams of a run are called, which folders they use, how   *)
(* many lines they hold and how numbers are written.  A path is a sequence of *)
(* names; a stream is a record of its settings.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* --- names ---                                                              *)
RECURSIVE NumDigits(_)
NumDigits(n) == IF n < 10 THEN 1 ELSE 1 + NumDigits(n \div 10)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(k, w) == Zeros(w - NumDigits(k)) \o ToString(k)
Ending(st) == IF st.tsv THEN ".tsv" ELSE ".csv"
\* file of snapshot k of a run that was configured for n outputs
SnapPath(st, k, n) == Append(st.folder, st.name \o (IF st.vec THEN "_" \o Pad(k, NumDigits(n)) ELSE "") \o Ending(st))
MetaPath(st) == Append(st.folder, st.name \o (IF st.vec THEN "_" ELSE "") \o "_metadata.json")
\* all files of a run with cnt snapshots
OwnOf(st, cnt, n) == IF ~st.file THEN {}
    ELSE {SnapPath(st, k, n) : k \in 0..cnt - 1} \cup (IF st.meta THEN {MetaPath(st)} ELSE {})
Own(ss, cnt, n) == UNION {OwnOf(ss[i], cnt, n) : i \in 1..Len(ss)}

(* --- folders ---                                                            *)
Under(p, f) == Len(p) > Len(f) /\ SubSeq(p, 1, Len(f)) = f
Cleared(ss) == {ss[i].folder : i \in {x \in 1..Len(ss) : ss[x].file /\ ss[x].clear}}
Gone(ss, p) == \E f \in Cleared(ss) : Under(p, f)
Folders(ss) == UNION {{SubSeq(ss[i].folder, 1, n) : n \in 1..Len(ss[i].folder)} : i \in {x \in 1..Len(ss) : ss[x].file}}
\* a needed folder is taken by something that is no folder (files: paths of such things)
Blocked(ss, files) == \E f \in Folders(ss) : f \in files /\ ~Gone(ss, f)

(* --- snapshots ---                                                          *)
Rows(st, s) == IF ~st.vec THEN 1 ELSE IF st.ghost THEN s ELSE s - 4
Cell(st, j) == IF st.ghost THEN j ELSE j + 2
\* lines of snapshot k: the header of a scalar stream comes once
HasHead(st, k) == st.vec \/ k = 0
BlockLen(st, k, s) == Rows(st, s) + (IF HasHead(st, k) THEN 1 ELSE 0)
Snapshots(n, fail) == IF fail = 0 THEN n + 1 ELSE fail + 1

(* --- decimal numbers: digits d[1] . d[2] d[3] ... times 10 to the power e ---*)
IsZero(v) == \A i \in 1..Len(v.d) : v.d[i] = 0
RECURSIVE Inc(_, _)
\* the digit string plus one unit in position i; a carry out of the front gives 1 0 0 ...
Inc(d, i) == IF i = 0 THEN [x \in 1..Len(d) |-> IF x = 1 THEN 1 ELSE 0]
             ELSE IF d[i] < 9 THEN [d EXCEPT ![i] = @ + 1] ELSE Inc([d EXCEPT ![i] = 0], i - 1)
AllNine(d) == \A i \in 1..Len(d) : d[i] = 9
Down(v, p) == [d |-> SubSeq(v.d, 1, p + 1), e |-> v.e]
Up(v, p) == LET P == SubSeq(v.d, 1, p + 1) IN [d |-> Inc(P, p + 1), e |-> IF AllNine(P) THEN v.e + 1 ELSE v.e]
\* what follows the last digit shown, compared with one half: -1, 0, 1
Rest(v, p) == LET r == v.d[p + 2]
                  tail == v.more \/ \E i \in p + 3..Len(v.d) : v.d[i] # 0
              IN IF r < 5 THEN -1 ELSE IF r > 5 \/ tail THEN 1 ELSE 0
Shown(v, p) == IF IsZero(v) THEN {[d |-> [i \in 1..p + 1 |-> 0], e |-> 0]}
               ELSE CASE Rest(v, p) = -1 -> {Down(v, p)} [] Rest(v, p) = 1 -> {Up(v, p)} [] OTHER -> {Down(v, p), Up(v, p)}
=============================================================================
