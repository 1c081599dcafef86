-------------------------------- MODULE Num --------------------------------
(* Arithmetic shared by the specifications.  TLC has 32-bit integers, hence   *)
(* reals are fixed point integers (the scale is given by each caller) and     *)
(* complex numbers are pairs <<re, im>> of integers.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Close(x, y, tol) == Abs(x - y) <= tol

(* by halves: deep recursion would overflow the stack of TLC *)
RECURSIVE SumFrom(_, _, _)
SumFrom(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a] ELSE
    LET h == (a + b) \div 2 IN SumFrom(f, a, h) + SumFrom(f, h + 1, b)
SumTo(f, n) == SumFrom(f, 1, n)
Sum(s) == SumTo(s, Len(s))

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Sqr(x) == x * x

(* greatest r with r^2 <= n *)
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n

(* complex numbers *)
CZero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
CNorm2(a) == a[1] * a[1] + a[2] * a[2]
CClose(a, b, tol) == Close(a[1], b[1], tol) /\ Close(a[2], b[2], tol)
RECURSIVE CSumFrom(_, _, _)
CSumFrom(f, a, b) == IF a > b THEN CZero ELSE IF a = b THEN f[a] ELSE
    LET h == (a + b) \div 2 IN CAdd(CSumFrom(f, a, h), CSumFrom(f, h + 1, b))
CSumTo(f, n) == CSumFrom(f, 1, n)
CSum(s) == CSumTo(s, Len(s))

(* harmonic indices: degree and order <-> position (from 0) in a vector *)
Ind(l, m) == l * l + l + m
EllOf(i) == CHOOSE l \in 0..i : l * l <= i /\ i < (l + 1) * (l + 1)
EmmOf(i) == LET l == EllOf(i) IN i - l * l - l
MinusOnePow(n) == IF n % 2 = 0 THEN 1 ELSE -1

(* the names of the clauses of a record of booleans which do not hold *)
Failing(r) == {c \in DOMAIN r : ~r[c]}
=============================================================================
