------------------------------ MODULE Reality ------------------------------
(* Hermitian symmetry of harmonic coefficients: that of real fields.  A       *)
(* vector has the coefficient of degree l and order m at l^2 + l + m + 1.     *)
EXTENDS Num

Degrees(v) == 0..ISqrt(Len(v)) - 1
At(v, l, m) == v[Ind(l, m) + 1]
Hermitian(v, tol) ==
    \A l \in Degrees(v) : \A m \in 0..l :
        CClose(At(v, l, -m), CScale(MinusOnePow(m), CConj(At(v, l, m))), tol)
(* nothing below the magnitude of the spin *)
OfSpin(v, s, tol) == \A i \in 1..Min2(s * s, Len(v)) : CClose(v[i], CZero, tol)

Plus(u, v) == [i \in DOMAIN u |-> CAdd(u[i], v[i])]
Smooth(v, g) == [i \in DOMAIN v |-> CScale(g[EllOf(i - 1)], v[i])]
Sift(u, v) == [i \in DOMAIN u |-> CMul(u[i], CConj(v[i]))]
(* the rotation about the z axis by a quarter *)
Quarter(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, -1>>
                [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
Rotate(v, k) == [i \in DOMAIN v |-> CMul(Quarter((EmmOf(i - 1) * k) % 4), v[i])]
=============================================================================
