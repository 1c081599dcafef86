------------------------- MODULE DecompositionCases -------------------------
(* Decompositions against all bases of phased unit vectors of a small space.  *)
EXTENDS Decomposition, TLC, Json, IOUtils
CONSTANTS Dim, Values, Conjugate

Phases == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Perms == {s \in [1..Dim -> 1..Dim] : \A i, j \in 1..Dim : i # j => s[i] # s[j]}
Vals == {<<a, b>> : a \in Values, b \in {0, 1}}

VARIABLES basis, signal, n, step
vars == <<basis, signal, n, step>>
Init == basis = <<>> /\ signal = <<>> /\ n = 0 /\ step = "basis"
ChooseBasis ==
    /\ step = "basis"
    /\ \E s \in Perms, ph \in [1..Dim -> Phases] :
         basis' = [p \in 1..Dim |-> [i \in 1..Dim |-> IF s[p] = i THEN ph[p] ELSE CZero]]
    /\ step' = "signal" /\ UNCHANGED <<signal, n>>
Choose == /\ step = "signal" /\ Len(signal) < Dim
          /\ \E v \in Vals : signal' = Append(signal, v)
          /\ UNCHANGED <<basis, n, step>>
Cut == /\ step = "signal" /\ Len(signal) = Dim
       /\ n' \in 1..Dim /\ step' = "done" /\ UNCHANGED <<basis, signal>>
Next == ChooseBasis \/ Choose \/ Cut
Spec == Init /\ [][Next]_vars
F(f, vs, k) == IF Conjugate THEN Forward(f, vs, k)
               ELSE [p \in 1..k |-> CSum([i \in DOMAIN f |-> CMul(f[i], vs[p][i])])]
Done == step = "done"
(* coefficients survive the reconstruction, with any number of functions *)
RoundTrip == Done => LET c == SubSeq(signal, 1, n)
                     IN F(Inverse(c, basis, n), basis, n) = c
Complete == Done /\ n = Dim => Inverse(F(signal, basis, n), basis, n) = signal
Parseval == Done => Energy(F(signal, basis, n)) <= Energy(signal)
                    /\ (n = Dim => Energy(F(signal, basis, n)) = Energy(signal))
Scale(k, f) == [i \in DOMAIN f |-> CMul(k, f[i])]
Linear == Done => F(Scale(<<2, -3>>, signal), basis, n) = Scale(<<2, -3>>, F(signal, basis, n))
=============================================================================
