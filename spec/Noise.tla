------------------------------- MODULE Noise -------------------------------
(* Noise of a requested signal-to-noise ratio: unit normal numbers, which      *)
(* depend on nothing but the number of coefficients, times the square root of *)
(* 10^(-ratio/10) power / number.  Ratios of the exact cases are multiples of *)
(* 20 decibels, as then the factor of the amplitude is a power of ten.        *)
EXTENDS Num

Power(v) == Sum([i \in DOMAIN v |-> CNorm2(v[i])])
(* the root of the mean power, of signals for which it is an integer *)
Level(v) == ISqrt(Power(v) \div Len(v))
IsExact(v) == Sqr(Level(v)) * Len(v) = Power(v)
(* the standard deviation in units of 1/unit *)
Sigma(v, ratio, unit) ==
    IF ratio <= 0 THEN unit * Level(v) * Pow(10, -ratio \div 20)
    ELSE (unit * Level(v)) \div Pow(10, ratio \div 20)
(* numbers at the scale of z, in units of 1/unit *)
Scaled(z, sigma, unit) == [i \in DOMAIN z |-> <<(z[i][1] * sigma) \div unit,
                                                 (z[i][2] * sigma) \div unit>>]
(* Random signals: complex numbers with independent normal parts, of which    *)
(* each has half of the variance.  Moments of the parts at variance one, in   *)
(* thousandths: means, squares, the product of both and fourth powers.        *)
Moments == [re |-> 0, im |-> 0, re2 |-> 500, im2 |-> 500, both |-> 0,
            re4 |-> 750, im4 |-> 750]
Add(u, v) == [i \in DOMAIN u |-> CAdd(u[i], v[i])]
=============================================================================
