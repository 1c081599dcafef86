---------------------------- MODULE WaveletCases ----------------------------
(* All parameters within bounds; for each of them the tiling and the          *)
(* reconstruction of the unit signals, with and without truncation.           *)
EXTENDS Wavelets, CaseLog
CONSTANTS Sizes, Bs, DropEmpty

VARIABLES n, B, j0, cut
vars == <<n, B, j0, cut>>
Unset == 99
Init == n = 0 /\ B = 0 /\ j0 = Unset /\ cut = 0
Size == n = 0 /\ n' \in Sizes /\ UNCHANGED <<B, j0, cut>>
Base == n > 0 /\ B = 0 /\ B' \in Bs /\ UNCHANGED <<n, j0, cut>>
Scale == B > 0 /\ j0 = Unset /\ j0' \in 0..JMax(n, B) /\ UNCHANGED <<n, B, cut>>
Truncate == j0 # Unset /\ cut = 0 /\ cut' \in {c \in 1..n : c < 6 \/ c = n}
            /\ UNCHANGED <<n, B, j0>>
Next == Size \/ Base \/ Scale \/ Truncate
Spec == Init /\ [][Next]_vars
Done == cut > 0

One == 6400
Rows == TilingSq(n, B, j0, One)
Tiled == cut = 1           (* the same for every truncation *)
NonNegative == Tiled => LET R == Rows IN \A k \in DOMAIN R : \A i \in 1..n : R[k][i] >= 0
Partition == Tiled => LET R == Rows IN \A i \in 1..n :
                        Sum([k \in DOMAIN R |-> R[k][i]]) = One
Support == Tiled => LET R == Rows IN \A k \in DOMAIN R : \A i \in 1..n :
                      R[k][i] > 0 => MaySupport(i - 1, B, j0, k)
Neighbours == Tiled => LET R == Rows IN \A i \in 1..n :
    Cardinality({k \in DOMAIN R : R[k][i] > 0}) <= 2
(* the identity, as the squares of the rows tile: rows are scaled such that *)
(* their products are the squares above                                       *)
Unit(i) == [k \in 1..n |-> IF k = i THEN <<0, 1>> ELSE CZero]
Squares == LET R == Rows IN [k \in DOMAIN R |-> [i \in 1..n |-> <<R[k][i], 0>>]]
Ones == [k \in 1..JMax(n, B) - j0 + 2 |-> [i \in 1..n |-> <<1, 0>>]]
Drop(w) == IF DropEmpty THEN SelectSeq(w, LAMBDA r : ~IsZero(r))
           ELSE SubSeq(w, 1, Last(w))
Reconstructs == Done /\ n <= 40 => LET Q == Squares O == Ones IN \A i \in {1, cut} :
    Synthesis(Analysis(Unit(i), Q), O) = [k \in 1..n |-> CScale(One, Unit(i)[k])]
(* signals with energy in some functions only, of which the last ones are cut *)
Signal == [k \in 1..n |-> IF k < cut \div 2 THEN CZero ELSE <<1, k % 3>>]
Indicator == LET R == Rows IN [k \in DOMAIN R |-> [i \in 1..n |->
                IF R[k][i] > 0 /\ \A m \in 1..k - 1 : R[m][i] = 0
                THEN <<1, 0>> ELSE CZero]]
SlepianReconstructs == Done =>
    LET I == Indicator
        w == Drop(SlepianAnalysis(Signal, I, cut))
    IN w # <<>> /\ SlepianSynthesis(w, I, cut) = SubSeq(Signal, 1, cut)
Emit == Done => EmitCase([n |-> n, B |-> B, j0 |-> j0, cut |-> cut])
=============================================================================
