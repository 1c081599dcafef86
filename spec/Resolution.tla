----------------------------- MODULE Resolution -----------------------------
(* Grids of any resolution, and functions on them.  The grid of resolution R  *)
(* has R+1 colatitudes i pi / R, both poles included, and 2R longitudes       *)
(* j pi / R.                                                                  *)
EXTENDS Num

Rows(R) == 0..R
Cols(R) == 0..2 * R - 1
Samples(R) == Rows(R) \X Cols(R)
(* sample <<i, j>> of R is the sample <<k, n>> of S *)
Coincide(R, x, S, y) == x[1] * S = y[1] * R /\ x[2] * S = y[2] * R
Shared(R, S) == {x \in Samples(R) : (x[1] * S) % R = 0 /\ (x[2] * S) % R = 0}
Place(R, x, S) == <<(x[1] * S) \div R, (x[2] * S) \div R>>

PlotResolution(L) == LET e == CASE L < 2 -> 6 [] L < 4 -> 5 [] L < 8 -> 4 [] L < 128 -> 3
                                [] L < 512 -> 2 [] L < 1024 -> 1 [] OTHER -> 0
                     IN L * Pow(2, e)
RECURSIVE IsPowerOfTwo(_)
IsPowerOfTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPowerOfTwo(n \div 2))

(* coefficients of a greater bandlimit *)
Padded(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE CZero]

(* --- exact values for resolutions 1, 2 and 4 --- *)
(* a + b root(2), as <<a, b>>, and the cosine of k quarter turns / 2, doubled *)
RMul(x, y) == <<x[1] * y[1] + 2 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
RAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
RScale(k, x) == <<k * x[1], k * x[2]>>
Cos2(k) == << <<2, 0>>, <<0, 1>>, <<0, 0>>, <<0, -1>>, <<-2, 0>>, <<0, -1>>, <<0, 0>>, <<0, 1>> >>
           [(k % 8) + 1]
Sin2(k) == Cos2(k + 6)
(* four times the field of c[1] + c[2] cos(theta) + sin(theta) (c[3] exp(i    *)
(* phi) + c[4] exp(-i phi)), real and imaginary part, at an eighth turn       *)
Value4(c, t, p) ==
    LET st == Sin2(t) cp == RMul(st, Cos2(p)) sp == RMul(st, Sin2(p))
        ct == RScale(2, Cos2(t))
        re == RAdd(RAdd(RAdd(<<4 * c[1][1], 0>>, RScale(c[2][1], ct)),
                        RScale(c[3][1] + c[4][1], cp)), RScale(c[4][2] - c[3][2], sp))
        im == RAdd(RAdd(RAdd(<<4 * c[1][2], 0>>, RScale(c[2][2], ct)),
                        RScale(c[3][2] + c[4][2], cp)), RScale(c[3][1] - c[4][1], sp))
    IN <<re, im>>
FieldAt(c, R, x) == Value4(c, (4 \div R) * x[1], (4 \div R) * x[2])

(* --- the nearest sample, for angles which are fractions of pi --- *)
(* distances in units of pi / (den L) *)
Apart(L, num, den, i) == Abs(i * den - num * L)
Around(L, num, den, j) ==      \* longitudes differ by at most half a turn
    LET d == (j * den - num * L) % (2 * den * L) IN Min2(d, 2 * den * L - d)
NearestRow(L, num, den, i) == i \in Rows(L) /\ \A k \in Rows(L) :
    Apart(L, num, den, i) <= Apart(L, num, den, k)
NearestCol(L, num, den, j) == j \in Cols(L) /\ \A k \in Cols(L) :
    Around(L, num, den, j) <= Around(L, num, den, k)
=============================================================================
