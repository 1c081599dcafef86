--------------------------- MODULE Decomposition ---------------------------
(* Coefficients of a signal against a set of functions, over the Gaussian     *)
(* integers: vectors are sequences of complex numbers.                        *)
EXTENDS Num

Inner(f, v) == CSum([i \in DOMAIN f |-> CMul(f[i], CConj(v[i]))])
Forward(f, vs, n) == [p \in 1..n |-> Inner(f, vs[p])]
Inverse(c, vs, n) == [i \in DOMAIN vs[1] |->
                        CSum([p \in 1..n |-> CMul(c[p], vs[p][i])])]
Energy(f) == Sum([i \in DOMAIN f |-> CNorm2(f[i])])
(* which inner product the given arguments select *)
Method(flm, f, mask) == IF flm THEN "harmonic"
                        ELSE IF f /\ mask THEN "region"
                        ELSE IF f THEN "sphere"
                        ELSE "rejected"
(* ranks are counted in halves, such that some are not integers *)
RankValid(halves, number) == halves % 2 = 0 /\ halves >= 0 /\ halves < 2 * number
=============================================================================
