--------------------------- MODULE ResolutionCases ---------------------------
(* A signal passes through grids of any resolution: it is sampled, recovered, *)
(* padded and sampled again.  And the grids themselves.                       *)
EXTENDS Resolution, CaseLog
CONSTANTS Front, Straight, Grids, Dens, Emitting

Units == {<<0, 0>>, <<1, 0>>, <<2, -1>>}
VARIABLES machine, c, L, R, d, f, path, q
vars == <<machine, c, L, R, d, f, path, q>>
Resolutions == {1, 2, 4}
Usable(n) == {x \in [1..n * n -> Units] : TRUE}
Four(x) == Padded(x, 4)

InitSignal == /\ machine = "signal" /\ L \in {1, 2} /\ R = L
              /\ c \in Usable(L) /\ d = c /\ f = <<>> /\ path = <<>> /\ q = <<>>
Boost == /\ machine = "signal" /\ f = <<>> /\ R < 4
         /\ R' \in {x \in Resolutions : x > R}
         /\ d' = (IF Front THEN [i \in 1..R' * R' |-> IF i <= R' * R' - Len(d) THEN CZero
                                                     ELSE d[i - (R' * R' - Len(d))]]
                  ELSE Padded(d, R' * R'))
         /\ path' = Append(path, R')
         /\ UNCHANGED <<machine, c, L, f, q>>
Sample == /\ machine = "signal" /\ f = <<>>
          /\ f' = [x \in Samples(R) |-> FieldAt(Four(SubSeq(d, 1, Min2(4, Len(d)))), R, x)]
          /\ UNCHANGED <<machine, c, L, R, d, path, q>>
InitGrid == /\ machine = "grid" /\ L \in Grids /\ R \in Grids /\ R >= L
            /\ c = <<>> /\ d = <<>> /\ f = <<>> /\ path = <<>> /\ q = <<>>
(* the nearest sample of an angle, or (broken) without the end of the circle *)
InitAngle == /\ machine = "angle" /\ L \in Grids /\ R = L
             /\ \E den \in Dens : \E num \in 0..2 * den :
                    q = [num |-> num, den |-> den, of |-> IF num <= den THEN "both" ELSE "phi"]
             /\ c = <<>> /\ d = <<>> /\ f = <<>> /\ path = <<>>
Find == /\ machine = "angle" /\ f = <<>>
        /\ f' = [row |-> IF q.num > q.den THEN {} ELSE {i \in Rows(L) : NearestRow(L, q.num, q.den, i)},
                 col |-> {j \in Cols(L) : IF Straight
                    THEN \A k \in Cols(L) : Apart(L, q.num, q.den, j) <= Apart(L, q.num, q.den, k)
                    ELSE NearestCol(L, q.num, q.den, j)}]
        /\ UNCHANGED <<machine, c, L, R, d, path, q>>
Init == InitSignal \/ InitGrid \/ InitAngle
Next == Boost \/ Sample \/ Find
Spec == Init /\ [][Next]_vars

Sampled == machine = "signal" /\ f # <<>>
(* whatever the path, values at shared samples are those of the coarse grid *)
SameSignal == Sampled => \A x \in Shared(L, R) :
    f[Place(L, x, R)] = FieldAt(Four(c), L, x)
SameCoefficients == machine = "signal" =>
    /\ SubSeq(d, 1, Len(c)) = c /\ \A i \in Len(c) + 1..Len(d) : d[i] = CZero
PolesConstant == Sampled => \A j \in Cols(R) : f[<<0, j>>] = f[<<0, 0>>] /\ f[<<R, j>>] = f[<<R, 0>>]

Grid == machine = "grid"
Nested == Grid => (R % L = 0 => Shared(L, R) = Samples(L))
PolesShared == Grid => \A x \in {<<0, 0>>, <<L, 0>>} : x \in Shared(L, R)
Coincident == Grid => \A x \in Shared(L, R) : Coincide(L, x, R, Place(L, x, R))
Finer == Grid => PlotResolution(L) >= L /\ PlotResolution(L) % L = 0
                 /\ IsPowerOfTwo(PlotResolution(L) \div L)
Found == machine = "angle" /\ f # <<>>
(* one or, half way, two; never farther than half a step; itself if a sample *)
Nearest == Found => /\ Cardinality(f.col) \in {1, 2}
                    /\ \A j \in f.col : 2 * Around(L, q.num, q.den, j) <= q.den
                    /\ (q.num * L) % q.den = 0 => f.col = {((q.num * L) \div q.den) % (2 * L)}
                    /\ q.num <= q.den => /\ Cardinality(f.row) \in {1, 2}
                                         /\ \A i \in f.row : 2 * Apart(L, q.num, q.den, i) <= q.den
(* an angle and the same after a turn *)
Periodic == Found => \A j \in Cols(L) :
    Around(L, q.num, q.den, j) = Around(L, q.num + 2 * q.den, q.den, j)
Emit == Emitting => /\ Sampled => EmitCase([kind |-> "signal", L |-> L, R |-> R, c |-> c])
                    /\ Found => EmitCase([kind |-> "angle", L |-> L, num |-> q.num, den |-> q.den])
                    /\ Grid => EmitCase([kind |-> "grid", L |-> L, R |-> R])
=============================================================================
