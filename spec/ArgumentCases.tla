---------------------------- MODULE ArgumentCases ----------------------------
(* Constructions of all functions: arguments are given one after the other,   *)
(* and the construction is accepted or rejected.                              *)
EXTENDS Arguments, CaseLog
CONSTANTS Bandlimit, Basis, Shannon, Loose, Emitting

VARIABLES c, verdict
vars == <<c, verdict>>
Regions == {"polar", "africa", "south_america"}
Values(f, i) == IF i = 1 THEN {-1, 0, 1, 2, Shannon - 1, Shannon, Size(c) - 1, Size(c)}
             ELSE IF i = 2 THEN {-1, 0, 1, c.L} \cup (IF f = "spherical_harmonic"
                                    THEN {-3, -2, 2} ELSE {}) ELSE {-1, 0, 1, 2, 3, None}
Init == /\ \E f \in Functions, r \in Regions, g \in BOOLEAN :
              /\ (f \notin OnRegion => r = "polar")
              /\ c = [fun |-> f, region |-> r, given |-> g, args |-> <<>>, whole |-> TRUE,
                      L |-> IF f \in OnMesh THEN Basis ELSE Bandlimit, N |-> Shannon]
        /\ verdict = "none"
Give == /\ verdict = "none" /\ c.given /\ Len(c.args) <= Arity(c.fun)
        /\ \E v \in Values(c.fun, Len(c.args) + 1) : c' = [c EXCEPT !.args = Append(@, v)]
        /\ UNCHANGED verdict
Halve == /\ verdict = "none" /\ c.given /\ c.args # <<>> /\ c.whole
         /\ c' = [c EXCEPT !.whole = FALSE] /\ UNCHANGED verdict
(* a design which compares the rank with the dimension of the space *)
Decided(x) == IF Loose /\ x.given /\ x.fun = "slepian" /\ Len(x.args) = 1 /\ x.whole
              THEN IF x.args[1] \in 0..(x.L * x.L - 1) THEN "accepted" ELSE "rejected"
              ELSE Expected(x)
Construct == verdict = "none" /\ verdict' = Decided(c) /\ UNCHANGED c
Next == Give \/ Halve \/ Construct
Spec == Init /\ [][Next]_vars

(* an accepted Slepian function is one of those concentrated in the region *)
Meaningful == (verdict = "accepted" /\ c.given /\ c.fun \in {"slepian", "mesh_slepian_functions"})
                 => c.args[1] < c.N
(* whoever is accepted stays so with a smaller rank, scale or order *)
Smaller(x) == [x EXCEPT !.args[Len(x.args)] = @ - 1]
DownwardClosed == (verdict = "accepted" /\ c.given /\ c.args # <<>>
                     /\ c.args[Len(c.args)] > 0 /\ c.args[Len(c.args)] # None)
                  => Decided(Smaller(c)) \in {"accepted", "either"}
(* too many or too few are never accepted *)
Counted == (verdict = "accepted" /\ c.given) => Len(c.args) = Arity(c.fun)
Emit == (Emitting /\ verdict # "none") => EmitCase([case |-> c, verdict |-> verdict])
=============================================================================
