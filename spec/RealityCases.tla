---------------------------- MODULE RealityCases ----------------------------
(* A function which declares whether its field is real, and the operations    *)
(* which change its coefficients.  The sifting convolution of real functions  *)
(* is not real in general, hence it withdraws the declaration.                *)
EXTENDS Reality, CaseLog
CONSTANTS Values, Depth, KeepDeclaration, ComplexNoise, Emitting

Few == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 0>>, <<0, -1>>}
Many == {<<a, b>> : a \in -1..1, b \in -1..1} \cup {<<2, 0>>}
VARIABLES flm, declared, ops
vars == <<flm, declared, ops>>
Real == {v \in [1..4 -> Values] : Hermitian(v, 0)}
Sample == {v \in [1..4 -> Values] : v[1] \in {<<0, 1>>, <<2, 0>>} /\ v[4] = <<1, 1>> /\ v[2] = <<0, 1>>}
Init == flm = <<>> /\ declared = FALSE /\ ops = <<>>
Build == flm = <<>> /\ \/ flm' \in Real /\ declared' = TRUE
                       \/ flm' \in Sample /\ declared' = FALSE
         /\ ops' = <<"build">>
More == flm # <<>> /\ Len(ops) <= Depth
Noise == More /\ Len(ops) = 1
         /\ flm' \in {Plus(flm, n) : n \in IF ComplexNoise THEN Sample
                                           ELSE Real}
         /\ ops' = Append(ops, "noise") /\ UNCHANGED declared
Smoothing == More /\ Len(ops) <= 2 /\ (\A i \in DOMAIN ops : ops[i] # "smoothing")
         /\ flm' = Smooth(flm, [l \in 0..1 |-> 2 - l])
         /\ ops' = Append(ops, "smoothing") /\ UNCHANGED declared
Turn == More /\ \E k \in 1..2 : flm' = Rotate(flm, k)
         /\ ops' = Append(ops, "rotate") /\ UNCHANGED declared
Convolve(name, g) == More /\ flm' = Sift(flm, g)
         /\ ops' = Append(ops, name) /\ declared' = (KeepDeclaration /\ declared)
Others == {<<<<1, 0>>, <<-1, 1>>, <<2, 0>>, <<1, 1>>>>}
Next == \/ Build \/ Noise \/ Smoothing \/ Turn
        \/ \E g \in Others : Convolve("convolve", g) \/ Convolve("translate", g)
Spec == Init /\ [][Next]_vars

DeclaredIsReal == declared => Hermitian(flm, 0)
Same == \A g \in Others : Hermitian(g, 0)
Emit == (Emitting /\ flm # <<>> /\ Len(ops) > 1) => EmitCase(ops)
=============================================================================
