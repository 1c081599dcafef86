----------------------------- MODULE SpherePlot -----------------------------
(* The figure of a field on the sphere.  A field is a matrix of samples, a    *)
(* row per colatitude, each sample <<real part, imaginary part, modulus>>.    *)
(* Values of the figure are fixed point numbers of the given scale.           *)
EXTENDS Num

Part(p, v) == CASE p = "real" -> v[1] [] p = "imag" -> v[2] [] p = "abs" -> v[3]
                [] OTHER -> v[1] + v[2]
Parts(p, f) == [r \in DOMAIN f |-> [c \in DOMAIN f[r] |-> Part(p, f[r][c])]]
Values(m) == {m[r][c] : r \in DOMAIN m, c \in DOMAIN m[1]}
Least(m) == LET V == Values(m) IN CHOOSE x \in V : \A y \in V : x <= y
Most(m) == LET V == Values(m) IN CHOOSE x \in V : \A y \in V : x >= y
Colour(x, lo, hi, scale) ==
    IF lo = hi THEN (IF x = 0 THEN scale \div 2 ELSE scale)
    ELSE ((x - lo) * scale) \div (hi - lo)
Normalised(m, scale) ==
    LET lo == Least(m)  hi == Most(m)
    IN [r \in DOMAIN m |-> [c \in DOMAIN m[r] |-> Colour(m[r][c], lo, hi, scale)]]
Shaded(m, norm, scale) ==
    IF norm THEN Normalised(m, scale)
    ELSE [r \in DOMAIN m |-> [c \in DOMAIN m[r] |-> scale * m[r][c]]]
(* the first longitude is drawn again at the end of each row *)
Closed(m) == [r \in DOMAIN m |-> Append(m[r], m[r][1])]
Hide(m, mask, hidden) ==
    [r \in DOMAIN m |-> [c \in DOMAIN m[r] |-> IF mask[r][c] THEN m[r][c] ELSE hidden]]
Figure(p, norm, f, mask, scale, hidden) ==
    Hide(Closed(Shaded(Parts(p, f), norm, scale)), Closed(mask), hidden)
(* the largest colour: one, the given amplitude or the largest modulus *)
Top(p, norm, f, amplitude, scale) ==
    IF norm THEN scale
    ELSE IF amplitude # <<>> THEN amplitude[1]
    ELSE LET m == Parts(p, f) IN scale * Max2(Abs(Least(m)), Abs(Most(m)))
Resolution(L) == LET e == CASE L < 2 -> 6 [] L < 4 -> 5 [] L < 8 -> 4 [] L < 128 -> 3
                            [] L < 512 -> 2 [] L < 1024 -> 1 [] OTHER -> 0
                 IN L * Pow(2, e)
=============================================================================
