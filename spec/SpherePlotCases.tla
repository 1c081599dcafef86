--------------------------- MODULE SpherePlotCases ---------------------------
(* Drawing as a machine: the part is taken, shaded, closed and masked.        *)
EXTENDS SpherePlot, CaseLog
CONSTANTS HideFirst, Open, Emitting

Samples == {<<0, 0, 0>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<5, -12, 13>>}
Row(a, b) == <<a, b>>
Masks == {<<Row(TRUE, TRUE), Row(TRUE, TRUE)>>, <<Row(TRUE, FALSE), Row(TRUE, TRUE)>>,
          <<Row(FALSE, TRUE), Row(FALSE, TRUE)>>, <<Row(FALSE, FALSE), Row(FALSE, TRUE)>>}
Hidden == -1000000
Scale == 1000
VARIABLES f, mask, part, norm, m, pc
vars == <<f, mask, part, norm, m, pc>>
Init == /\ f \in {<<Row(a, b), Row(c, d)>> : a \in Samples, b \in Samples,
                                             c \in Samples, d \in Samples}
        /\ mask \in Masks /\ part \in {"real", "imag", "abs", "sum"} /\ norm \in BOOLEAN
        /\ m = <<>> /\ pc = "field"
Step(from, to, v) == pc = from /\ pc' = to /\ m' = v /\ UNCHANGED <<f, mask, part, norm>>
Take == Step("field", "part", LET q == Parts(part, f)
                              IN IF HideFirst THEN Hide(q, mask, Hidden) ELSE q)
Shade == pc = "part" /\ Step("part", "shaded", Shaded(m, norm, Scale))
Close2 == pc = "shaded" /\ Step("shaded", "closed", IF Open THEN m ELSE Closed(m))
Mask == pc = "closed" /\ Step("closed", "drawn", IF HideFirst THEN m
                                                  ELSE Hide(m, Closed(mask), Hidden))
Next == Take \/ Shade \/ Close2 \/ Mask
Spec == Init /\ [][Next]_vars

Drawn == pc = "drawn"
AsDeclared == Drawn => m = Figure(part, norm, f, mask, Scale, Hidden)
Seamless == Drawn => \A r \in DOMAIN m : Len(m[r]) = Len(f[r]) + 1
                                           /\ m[r][Len(m[r])] = m[r][1]
InRange == Drawn /\ norm => \A v \in Values(m) : v = Hidden \/ (v >= 0 /\ v <= Scale)
OutsideHidden == Drawn => \A r \in DOMAIN f : \A c \in DOMAIN f[r] :
                              (m[r][c] = Hidden) <=> ~mask[r][c]
(* both orders of values agree, and both ends are reached *)
Monotone == Drawn => \A r, s \in DOMAIN f : \A c, d \in DOMAIN f[1] :
    mask[r][c] /\ mask[s][d] /\ Part(part, f[r][c]) <= Part(part, f[s][d])
        => m[r][c] <= m[s][d]
Reached == pc = "shaded" /\ norm => Most(m) \in {Scale, Scale \div 2}
                 /\ (Cardinality(Values(Parts(part, f))) > 1 => Least(m) = 0 /\ Most(m) = Scale)
Within == Drawn /\ ~norm => LET t == Top(part, norm, f, <<>>, Scale)
                            IN \A v \in Values(m) : v = Hidden \/ Abs(v) <= t
Emit == (Emitting /\ Drawn) =>
    EmitCase([f |-> f, mask |-> mask, part |-> part, norm |-> norm])
=============================================================================
