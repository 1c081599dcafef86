---------------------------- MODULE DefinitionCases ----------------------------
(* All functions with their arguments: first the arguments of a command line, *)
(* then the parameters which these set.                                       *)
EXTENDS Definitions, CaseLog
CONSTANTS Width, Reversed, Emitting

VARIABLES fun, extra, set
vars == <<fun, extra, set>>
Values == (0 - Width)..Width
Usual(f, x) == IF Reversed THEN Setting(f, [i \in DOMAIN x |-> x[Len(x) + 1 - i]])
               ELSE Setting(f, x)
Valid(f, x) == CASE f = "spherical_harmonic" -> x[1] >= 0 /\ Abs(x[2]) <= x[1]
                 [] f = "slepian" -> x[1] \in 0..1
                 [] Table[f].parameters[1] = "B" ->
                      /\ x[1] >= 2 /\ \A i \in DOMAIN x :
                            Table[f].parameters[i] # "spin" => x[i] >= 0
                 [] OTHER -> TRUE
Init == fun \in DOMAIN Table /\ extra = <<>> /\ set = FALSE
Give == /\ ~set /\ Len(extra) < Len(Table[fun].parameters)
        /\ \E v \in Values : extra' = Append(extra, v)
        /\ UNCHANGED <<fun, set>>
Set == /\ ~set /\ Len(extra) = Len(Table[fun].parameters) /\ Valid(fun, extra)
       /\ set' = TRUE /\ UNCHANGED <<fun, extra>>
Next == Give \/ Set
Spec == Init /\ [][Next]_vars

(* the first argument alone decides the first parameter, and so forth *)
InOrder == set => \A i \in DOMAIN extra :
              Usual(fun, extra)[Table[fun].parameters[i]] = Parameter(fun, extra[i])
(* the Gaussians: decreasing with the degree, one at the origin, isotropic *)
Arguments == [i \in DOMAIN extra |-> Parameter(fun, extra[i])]
(* within the range of the numbers *)
Shapes == (set /\ Table[fun].power /\ \A i \in DOMAIN extra : Abs(extra[i]) <= 2) =>
    /\ Exponent(fun, Arguments, 0, 0, 100) = 0
    /\ \A l \in 0..3 : Exponent(fun, Arguments, l, 0, 100)
                          <= Exponent(fun, Arguments, l + 1, 0, 100)
    /\ \A l \in 0..3, m \in 0..3 : m <= l => Exponent(fun, Arguments, l, m, 100)
                                            = Exponent(fun, Arguments, l, -m, 100)
(* the energy of the Dirac delta below a bandlimit is L^2 over 4 pi *)
Energy == \A L \in 1..8 : Sum([l \in 1..L |-> DeltaSquare(l - 1)]) = L * L
Emit == (Emitting /\ set) => EmitCase([fun |-> fun, extra |-> extra])
=============================================================================
