---------------------------- MODULE SiftingCases ----------------------------
(* All sifting convolutions of small vectors, and the algebra of them.        *)
EXTENDS Sifting, CaseLog
CONSTANTS Dim, Conjugate

Vals == {<<0, 0>>, <<2, 0>>, <<0, 1>>, <<-1, 3>>}
VARIABLES f, g, n
vars == <<f, g, n>>
Init == f = <<>> /\ g = <<>> /\ n = NoCut
ChooseF == /\ Len(f) < Dim /\ g = <<>> /\ \E v \in Vals : f' = Append(f, v)
           /\ UNCHANGED <<g, n>>
ChooseG == /\ Len(g) < Len(f) /\ n = NoCut /\ \E v \in Vals : g' = Append(g, v)
           /\ UNCHANGED <<f, n>>
ChooseN == /\ n = NoCut /\ Len(g) = Len(f) /\ Len(f) > 0 /\ n' \in 0..Len(f) + 1
           /\ UNCHANGED <<f, g>>
Next == ChooseF \/ ChooseG \/ ChooseN
Spec == Init /\ [][Next]_vars
Complete == Len(f) > 0 /\ Len(g) = Len(f)

S(a, b, k) == IF Conjugate THEN Sift(a, b, k)
              ELSE Cut([i \in DOMAIN a |-> CMul(a[i], b[i])], k)
Map(k, a) == [i \in DOMAIN a |-> CMul(k, a[i])]
Conj(a) == [i \in DOMAIN a |-> CConj(a[i])]
Ones(a) == [i \in DOMAIN a |-> <<1, 0>>]
(* linear in the first and antilinear in the second *)
Linear == Complete => S(Map(<<1, 2>>, f), g, n) = Map(<<1, 2>>, S(f, g, n))
AntiLinear == Complete => S(f, Map(<<1, 2>>, g), n) = Map(<<1, -2>>, S(f, g, n))
Exchanged == Complete => S(g, f, n) = Conj(S(f, g, n))
Unit == Complete => S(f, Ones(f), NoCut) = f
OwnPower == Complete => \A i \in DOMAIN S(f, f, n) : S(f, f, n)[i] = <<CNorm2(f[i]), 0>>
Prefix == Complete /\ n # NoCut =>
    /\ Len(S(f, g, n)) = Min2(n, Len(f))
    /\ S(f, g, n) = SubSeq(S(f, g, NoCut), 1, Len(S(f, g, n)))
(* translations commute with each other and with the convolution's first part *)
Commutes == Complete => Translate(Translate(f, g, NoCut), Conj(f), n)
                        = Translate(Translate(f, Conj(f), NoCut), g, n)
Emit == Complete => EmitCase([f |-> f, g |-> g, n |-> n])
=============================================================================
