------------------------------ MODULE Wavelets ------------------------------
(* The tiling of indices 0..n-1 by a scaling function and wavelets of scales  *)
(* j0..J, with squared generating functions from a profile which falls from   *)
(* One at B^j / B to nothing at B^j; analysis and synthesis over such tilings.*)
EXTENDS Num

(* the largest scale: the first whose power of B is not below n *)
JMax(n, B) == CHOOSE J \in 0..n : Pow(B, J) >= n /\ (J = 0 \/ Pow(B, J - 1) < n)
(* a monotone profile in fixed point *)
Profile(x, B, j, One) ==
    LET p == Pow(B, j)
    IN IF x * B <= p THEN One
       ELSE IF x >= p THEN 0
       ELSE (One * (p - x) * B) \div (p * (B - 1))
ScalingSq(x, B, j0, One) == Profile(x, B, j0, One)
WaveletSq(x, B, j, One) == Profile(x, B, j + 1, One) - Profile(x, B, j, One)
(* row 1 is the scaling function, row k + 1 the wavelet of scale j0 + k - 1 *)
TilingSq(n, B, j0, One) ==
    [k \in 1..JMax(n, B) - j0 + 2 |->
       [x \in 1..n |-> IF k = 1 THEN ScalingSq(x - 1, B, j0, One)
                       ELSE WaveletSq(x - 1, B, j0 + k - 2, One)]]
(* where the row may be other than zero, in powers of B *)
MaySupport(x, B, j0, k) ==
    IF k = 1 THEN x <= Pow(B, j0)
    ELSE x * B >= Pow(B, j0 + k - 2) /\ x <= Pow(B, j0 + k - 1)

(* transforms: psi has a row of numbers for each scale *)
Analysis(f, psi) == [j \in DOMAIN psi |-> [i \in DOMAIN f |-> CMul(CConj(psi[j][i]), f[i])]]
Synthesis(w, psi) == [i \in DOMAIN w[1] |->
                        CSum([j \in DOMAIN w |-> CMul(psi[j][i], w[j][i])])]
(* Slepian wavelets are convolved with the signal, twice for the synthesis; *)
(* all functions beyond the Shannon number are left out                       *)
SlepianAnalysis(f, psi, n) ==
    [j \in DOMAIN psi |-> [i \in 1..n |-> CMul(psi[j][i], CConj(f[i]))]]
SlepianSynthesis(w, psi, n) ==
    [i \in 1..n |-> CSum([j \in DOMAIN w |-> CMul(psi[j][i], CConj(w[j][i]))])]
IsZero(row) == \A i \in DOMAIN row : row[i] = CZero
(* the last set of coefficients which a truncation leaves *)
Last(w) == LET s == {j \in DOMAIN w : ~IsZero(w[j])}
           IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
=============================================================================
