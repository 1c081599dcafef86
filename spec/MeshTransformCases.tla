-------------------------- MODULE MeshTransformCases --------------------------
(* Transforms on four vertices, whose functions are known for some regions.    *)
(* Numbers are in units which the transforms multiply: a basis function is in  *)
(* halves, such that its square sums to four quarters.                         *)
EXTENDS MeshTransforms, CaseLog
CONSTANTS FieldFirst, AllFunctions, Undivided, Emitting

Had == << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>
(* the whole space: the functions are deltas, those in the region come first   *)
Column(x) == [i \in 1..4 |-> Had[i][x]]
Whole(r) == [basis |-> Had, w |-> [p \in 1..4 |-> Column(p)], unit |-> 2,
             inv |-> <<1, 1, 1, 1>>, mask |-> [x \in 1..4 |-> x <= r], number |-> r]
(* two functions, orthogonal over the first two vertices, with half the energy *)
Half == [basis |-> SubSeq(Had, 1, 2), w |-> << <<1, 0>>, <<0, 1>> >>, unit |-> 1,
         inv |-> <<2, 2>>, mask |-> <<TRUE, TRUE, FALSE, FALSE>>, number |-> 1]
Setups == {Whole(1), Whole(2), Whole(3), Half}
Givens == {{}, {"mask"}, {"field"}, {"coefficients"}, {"field", "mask"},
           {"field", "coefficients"}, {"coefficients", "mask"},
           {"field", "coefficients", "mask"}}

VARIABLES s, given, c, other, n, method, out, pc
vars == <<s, given, c, other, n, method, out, pc>>
Init == /\ s \in Setups
        /\ given \in Givens
        /\ c \in [1..Len(s.basis) -> {-1, 0, 2}]
        /\ other \in BOOLEAN        \* the coefficients are those of the field, or zero
        /\ n \in {1, s.number, Len(s.w)}
        /\ method = "" /\ out = <<>> /\ pc = "given"
Field == Inverse(s.basis, c)
Coeffs == IF other THEN [i \in DOMAIN c |-> 0] ELSE Forward(s.basis, Field)
Detect == /\ pc = "given"
          /\ method' = IF FieldFirst /\ "field" \in given
                       THEN Method(given \ {"coefficients"}) ELSE Method(given)
          /\ pc' = IF method' = "none" THEN "rejected" ELSE "rank"
          /\ UNCHANGED <<s, given, c, other, n, out>>
(* one rank after the other *)
Rank == /\ pc = "rank" /\ Len(out) < n
        /\ out' = Append(out, Coefficient(method, s.basis, s.w,
                     IF Undivided THEN [p \in DOMAIN s.inv |-> 1] ELSE s.inv,
                     s.mask, Field, Coeffs, Len(out) + 1))
        /\ pc' = IF Len(out') = n THEN "done" ELSE "rank"
        /\ UNCHANGED <<s, given, c, other, n, method>>
Next == Detect \/ Rank
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Number == IF AllFunctions THEN Len(s.w) ELSE s.number
AsDeclared == Done => out = SlepianForward(Method(given), s.basis, s.w, s.inv, s.mask,
                                           Field, Coeffs, n)
Rejected == pc = "rejected" <=> (pc # "given" /\ Method(given) = "none")
(* the basis is orthonormal: four quarters *)
RoundTrip == Forward(s.basis, Inverse(s.basis, c)) = [i \in DOMAIN c |-> 4 * c[i]]
(* for functions in the space and ranks in the region all methods are the same *)
Agreement == Done /\ ~other => \A p \in 1..Min2(n, s.number) :
    out[p] = Coefficient("coefficients", s.basis, s.w, s.inv, s.mask, Field, Coeffs, p)
(* a field which is a combination of the first functions is returned *)
Back == Done /\ ~other /\ n >= s.number =>
    LET back == SlepianInverse(s.basis, s.w, out, Number)
    IN Masked(Field, s.mask) = Field /\ Len(s.basis) = 4
          => back = [x \in DOMAIN Field |-> 16 * Field[x]]
(* only the first functions are used, hence nothing leaves the region *)
Inside == Done /\ Len(s.basis) = 4 => LET back == SlepianInverse(s.basis, s.w, out, Number)
                                      IN Masked(back, s.mask) = back
Emit == (Emitting /\ pc \in {"done", "rejected"}) =>
    EmitCase([basis |-> s.basis, w |-> s.w, inv |-> s.inv, mask |-> s.mask,
              number |-> s.number, u |-> Field, c |-> Coeffs, n |-> n,
              given |-> given])
=============================================================================
