-------------------------- MODULE MeshSpectrumCases --------------------------
(* The Laplacian assembled face by face, in any order, and small regions.      *)
EXTENDS MeshSpectrum, CaseLog
CONSTANTS OneSided, OpenBox, Truncated, Emitting

(* three columns of two points, the last one folded or not *)
Plain == << <<0, 0, 0>>, <<0, 1, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<2, 0, 0>>, <<2, 1, 0>> >>
Folded == [Plain EXCEPT ![5] = <<1, 0, 1>>, ![6] = <<1, 1, 1>>]
Sheared == [Plain EXCEPT ![5] = <<2, 1, 0>>, ![6] = <<2, 2, 0>>]
Faces == << <<1, 3, 2>>, <<3, 4, 2>>, <<1, 3, 4>>, <<4, 2, 1>>,
            <<3, 5, 4>>, <<5, 6, 4>>, <<3, 5, 6>>, <<6, 4, 3>> >>
Limits == {<<-9, 9>>, <<-9, 0>>, <<1, 9>>, <<1, 1>>}
Boxes == {<<a, b, c>> : a \in Limits, b \in Limits, c \in Limits}
Open(x, box) == \A d \in 1..3 : box[d][1] < x[d] /\ x[d] < box[d][2]

VARIABLES v, todo, order, lap, box, pc
cvars == <<v, todo, order, lap, box, pc, vars>>
Empty == [i \in 1..6 |-> [j \in 1..6 |-> 0]]
CaseInit ==
    /\ v \in {Plain, Folded, Sheared}
    /\ todo \in {s \in SUBSET DOMAIN Faces : Cardinality(s) \in 1..4}
    /\ \A n \in todo : Unimodular(v, Faces[n])
    /\ order = <<>> /\ lap = Empty
    /\ box \in Boxes /\ (todo # {1} => box = << <<-9, 9>>, <<-9, 0>>, <<-9, 9>> >>)
    /\ pc = "faces"
    /\ phase = "cases" /\ region = {} /\ D = Zero /\ pairs = <<>>
Add(l, t) ==
    [i \in 1..6 |-> [j \in 1..6 |->
        l[i][j] + (IF i = j THEN Sum([k \in 1..6 |-> IF k = i THEN 0 ELSE Opposite(v, t, i, k)])
                   ELSE IF OneSided /\ i < j /\ l[i][j] # 0 THEN 0
                   ELSE -Opposite(v, t, i, j))]]
Assembled == /\ pc = "faces"
             /\ \E n \in todo :
                   /\ \A k \in todo : n <= k \/ Cardinality(todo) = 2   \* any order of the last
                   /\ lap' = Add(lap, Faces[n]) /\ todo' = todo \ {n}
                   /\ order' = Append(order, n)
             /\ pc' = IF todo' = {} THEN "done" ELSE "faces"
             /\ UNCHANGED <<v, box, vars>>
CaseSpec == CaseInit /\ [][Assembled]_cvars

Done == pc = "done"
Used == [n \in DOMAIN order |-> Faces[order[n]]]
Mask == [i \in DOMAIN v |-> IF OpenBox THEN Open(v[i], box) ELSE InBox(v[i], box)]
Number(k, c, n) == IF Truncated THEN (k * c) \div n ELSE Shannon(k, c, n)
AsDeclared == Done => lap = Laplacian(v, Used)
Symmetric == Done => \A i, j \in 1..6 : lap[i][j] = lap[j][i]
ConstantsVanish == Done => \A i \in 1..6 : Sum(lap[i]) = 0
Signals == [1..6 -> {0, 1}]     \* these determine a quadratic form
IsEnergy == Done => \A f \in Signals : LET e == Energy(v, Used, f)
                                       IN e >= 0 /\ Quadratic(lap, f) = e
IsBox == Done => \A i \in 1..6 : Mask[i] = InBox(v[i], box)
IsNearest == Done => \A k \in 0..6 :
    LET s == Number(k, Count(Mask), 6)
    IN IsShannon(s, k, Count(Mask), 6) /\ 0 <= s /\ s <= k
Emit == (Emitting /\ Done) =>
    EmitCase([vertices |-> v, faces |-> Used, box |-> box, inside |-> Inside(v, box)])
=============================================================================
