----------------------------- MODULE EigenBasis -----------------------------
(* The spatial concentration problem and the shape of its solution.          *)
(*                                                                           *)
(* The predicates describe a family of functions by what can be observed of  *)
(* it: the matrix of inner products over the sphere, the matrix of inner     *)
(* products over the region, and the eigenvalues, as fixed point integers of *)
(* a given scale.  EigenTrace applies them to the functions which the        *)
(* package computes.  The state machine below applies the steps in which     *)
(* they are computed (assemble one triangle, complete it, solve, sort, fix   *)
(* the sign) to every region of a four point domain whose basis is the       *)
(* Hadamard basis, in any order in which a solver may return the pairs.      *)
EXTENDS Num, TLC

Orthonormal(gram, scale, tol) ==
    \A i, j \in DOMAIN gram :
        CClose(gram[i][j], IF i = j THEN <<scale, 0>> ELSE CZero, tol)
RegionDiagonal(gram, tol) ==
    \A i, j \in DOMAIN gram : i # j => CClose(gram[i][j], CZero, tol)
RegionEnergy(gram, ev, tol) ==
    \A i \in DOMAIN gram : CClose(gram[i][i], <<ev[i], 0>>, tol)
Descending(ev, tol) == \A i \in 1..Len(ev) - 1 : ev[i] >= ev[i + 1] - tol
Bounded(ev, scale, tol) == \A i \in DOMAIN ev : -tol <= ev[i] /\ ev[i] <= scale + tol
(* the sum of the eigenvalues is the real Shannon number *)
TraceIs(ev, shannon, tol) == Close(Sum(ev), shannon, tol)
(* the integer Shannon number is the nearest integer, either of two at a tie *)
NearestInteger(n, shannon, scale, tol) == 2 * Abs(n * scale - shannon) <= scale + tol

-----------------------------------------------------------------------------
Points == 1..4
Had == << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>
Norm == 4                                   \* squared norm of a basis function

VARIABLES phase, region, D, pairs
vars == <<phase, region, D, pairs>>

Zero == [i \in Points |-> [j \in Points |-> 0]]
Inner(i, j) == Sum([x \in Points |-> IF x \in region THEN Had[i][x] * Had[j][x] ELSE 0])
(* an eigenpair for each point: the coefficients of the delta on that point *)
Pair(x) == [val |-> IF x \in region THEN Norm ELSE 0,
            vec |-> [i \in Points |-> Had[i][x]]]

Init == /\ phase = "assemble"
        /\ region \in SUBSET Points
        /\ D = Zero
        /\ pairs = <<>>

Assemble == /\ phase = "assemble"
            /\ D' = [i \in Points |-> [j \in Points |-> IF j <= i THEN Inner(i, j) ELSE 0]]
            /\ phase' = "complete"
            /\ UNCHANGED <<region, pairs>>
Complete == /\ phase = "complete"
            /\ D' = [i \in Points |-> [j \in Points |-> IF j <= i THEN D[i][j] ELSE D[j][i]]]
            /\ phase' = "solve"
            /\ UNCHANGED <<region, pairs>>
(* a solver returns the pairs in some order, each vector up to its sign *)
Solve == /\ phase = "solve"
         /\ \E p \in Permutations(Points), s \in [Points -> {1, -1}] :
                pairs' = [k \in Points |->
                            [val |-> Pair(p[k]).val,
                             vec |-> [i \in Points |-> s[k] * Pair(p[k]).vec[i]]]]
         /\ phase' = "sort"
         /\ UNCHANGED <<region, D>>
Sort == /\ phase = "sort"
        /\ \E p \in Permutations(Points) :
              /\ \A k \in 1..3 : pairs[p[k]].val >= pairs[p[k + 1]].val
              /\ pairs' = [k \in Points |-> pairs[p[k]]]
        /\ phase' = "sign"
        /\ UNCHANGED <<region, D>>
Sign == /\ phase = "sign"
        /\ pairs' = [k \in Points |->
                       IF pairs[k].vec[1] < 0
                       THEN [pairs[k] EXCEPT !.vec = [i \in Points |-> -pairs[k].vec[i]]]
                       ELSE pairs[k]]
        /\ phase' = "done"
        /\ UNCHANGED <<region, D>>
Next == Assemble \/ Complete \/ Solve \/ Sort \/ Sign
Spec == Init /\ [][Next]_vars

(* inner products of the solution, of scale Norm * Norm *)
Value(k, x) == Sum([i \in Points |-> pairs[k].vec[i] * Had[i][x]])
Gram(over) == [a \in Points |-> [b \in Points |->
    <<Sum([x \in Points |-> IF x \in over THEN Value(a, x) * Value(b, x) ELSE 0]), 0>>]]
Values == [k \in Points |-> pairs[k].val]

Hermitian == phase \notin {"assemble", "complete"}
                => \A i, j \in Points : D[i][j] = D[j][i]
Eigenpairs == pairs # <<>> => \A k, i \in Points :
    Sum([j \in Points |-> D[i][j] * pairs[k].vec[j]]) = pairs[k].val * pairs[k].vec[i]
Concentrated == phase = "done" =>
    /\ Orthonormal(Gram(Points), Norm * Norm, 0)
    /\ RegionDiagonal(Gram(region), 0)
    /\ RegionEnergy(Gram(region), [k \in Points |-> Norm * Values[k]], 0)
    /\ Descending(Values, 0)
    /\ Bounded(Values, Norm, 0)
    /\ TraceIs(Values, Norm * Cardinality(region), 0)
    /\ NearestInteger(Cardinality(region), Sum(Values), Norm, 0)
=============================================================================
