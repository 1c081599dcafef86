------------------------------ MODULE EarthData ------------------------------
(* Published data of the Earth and of the microwave background.  A vector of  *)
(* coefficients holds degree l and order m at 1 + l^2 + l + m.                 *)
EXTENDS Num

At(l, m) == 1 + Ind(l, m)
L2(c) == ISqrt(Len(c))
(* negative orders follow from the positive ones, as the field is real *)
Mirrored(c, L, signed) == [i \in DOMAIN c |->
    LET l == EllOf(i - 1) m == EmmOf(i - 1)
    IN IF m < 0 /\ l < L THEN CScale(IF signed THEN MinusOnePow(m) ELSE 1, CConj(c[At(l, -m)]))
       ELSE c[i]]
Cut(c, L) == SubSeq(c, 1, L * L)
Turned(c) == [i \in DOMAIN c |-> CConj(c[i])]
(* each degree by a weight of its own *)
Weighted(c, w) == [i \in DOMAIN c |-> CScale(w[EllOf(i - 1) + 1], c[i])]
(* the Earth, as declared *)
Earth(p, L, w) == [i \in 1..L * L |->
    LET l == EllOf(i - 1) m == EmmOf(i - 1)
    IN CScale(w[l + 1], IF m >= 0 THEN CConj(p[i]) ELSE CScale(MinusOnePow(m), p[At(l, -m)]))]
Symmetric(c, tol) == \A i \in DOMAIN c :
    LET l == EllOf(i - 1) m == EmmOf(i - 1)
    IN CClose(c[i], CScale(MinusOnePow(m), CConj(c[At(l, -m)])), tol)

(* the microwave background: amplitudes s of the degrees, from degree 2, and  *)
(* unit normal numbers, drawn in this order                                   *)
RECURSIVE Drawn(_)
Drawn(l) == IF l = 2 THEN 0 ELSE Drawn(l - 1) + 1 + 2 * (l - 1)
Background(s, z, L) == [i \in 1..L * L |->
    LET l == EllOf(i - 1) m == EmmOf(i - 1) d == Drawn(l)
        c == IF m = 0 THEN <<z[d + 1], 0>> ELSE <<z[d + 2 * Abs(m)], z[d + 2 * Abs(m) + 1]>>
    IN IF l < 2 THEN CZero
       ELSE CScale(s[l - 1], IF m < 0 THEN CScale(MinusOnePow(m), CConj(c)) ELSE c)]

(* a continent: samples within so many degrees of the pole where the rotated  *)
(* Earth is not below the sea.  Angles are in thousandths of a degree.                *)
Limit(name) == IF name = "africa" THEN 41000 ELSE 40000
Ashore(name, angle, height) == angle <= Limit(name) /\ height >= 0
Kept(mask, f) == [i \in DOMAIN f |-> IF mask[i] THEN f[i] ELSE 0]
=============================================================================
