--------------------------- MODULE ThresholdCases ---------------------------
(* Thresholding of a set of coefficients scale by scale, on a copy of them.   *)
EXTENDS Threshold, CaseLog
CONSTANTS Scales, Pixels, Ns, Skip, Strict, FirstSigma, InPlace, Emitting

Values == {<<0, 0>>, <<2, 0>>, <<-3, 0>>, <<0, -4>>, <<3, 4>>, <<4, -3>>, <<6, 8>>}
Sigmas == {0, 1, 2, 3, 5}
VARIABLES input, given, work, sigma, n, j
vars == <<input, given, work, sigma, n, j>>
Init == /\ input = <<>> /\ given = <<>> /\ work = <<>> /\ sigma = <<>> /\ n = 0 /\ j = 0
(* rows are rotations of one row, as thresholding looks at one value at a time *)
Turn(v, k) == [i \in 1..Pixels |-> v[((i + k) % Pixels) + 1]]
Start == /\ j = 0
         /\ \E v \in [1..Pixels -> Values], s \in [1..Scales - Skip -> Sigmas], m \in Ns :
              /\ input' = [k \in 1..Scales |-> Turn(v, k)]
              /\ given' = input' /\ work' = input' /\ sigma' = s /\ n' = m
         /\ j' = Skip + 1
Cut(f, t) == IF Strict THEN [i \in DOMAIN f |-> IF CNorm2(f[i]) <= Sqr(t) THEN CZero
                                                ELSE f[i]]
             ELSE Hard(f, t)
Step == /\ j > 0 /\ j <= Scales
        /\ work' = [work EXCEPT ![j] =
                      Cut(work[j], n * sigma[IF FirstSigma THEN 1 ELSE j - Skip])]
        /\ given' = IF InPlace THEN work' ELSE given
        /\ j' = j + 1 /\ UNCHANGED <<input, sigma, n>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

Done == j = Scales + 1
InputKept == given = input
RowByRow == Done => work = HardRows(input, sigma, n, Skip)
Idempotent == Done => HardRows(work, sigma, n, Skip) = work
NothingWithoutThreshold == (Done /\ n = 0) => work = input
ScalingAlone == \A k \in 1..Skip : j > 0 => work[k] = input[k]
Never == Done => \A k \in DOMAIN work : \A i \in DOMAIN work[k] :
            work[k][i] \in {input[k][i], CZero}
AtThresholdKept == Done => \A k \in Skip + 1..Scales : \A i \in 1..Pixels :
    CNorm2(input[k][i]) = Sqr(n * sigma[k - Skip]) => work[k][i] = input[k][i]
Emit == (Emitting /\ Done) => EmitCase([rows |-> input, sigma |-> sigma, n |-> n])
=============================================================================
