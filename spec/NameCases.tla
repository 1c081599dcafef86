----------------------------- MODULE NameCases -----------------------------
(* All configurations of some functions: each state is a configuration, and   *)
(* the set of all of them has as many names.                                  *)
EXTENDS Names, CaseLog
CONSTANTS Bare, Emitting

F(n, d) == [num |-> n, den |-> d]
Powers == {F(1, 1), F(10, 1), F(100, 1), F(1, 10), F(1, 100), F(11, 1), F(11, 10),
           F(1, 4), F(5, 2)}
Whole == {F(n, 1) : n \in {0, 1, 2, 3, 10, 11, 12}}
Signed == {F(n, 1) : n \in {-10, -1, 0, 1, 10}} \cup {F(-5, 2), F(5, 2)}
(* functions with the labels and the values of their arguments *)
Functions == {
    [fun |-> "gaussian", labels |-> <<"sig">>, values |-> <<Powers>>],
    [fun |-> "elongated_gaussian", labels |-> <<"tsig", "psig">>, values |-> <<Powers, Powers>>],
    [fun |-> "squashed_gaussian", labels |-> <<"tsig", "freq">>, values |-> <<Powers, Powers>>],
    [fun |-> "harmonic_gaussian", labels |-> <<"lsig", "msig">>, values |-> <<Powers, Powers>>],
    [fun |-> "spherical_harmonic", labels |-> <<"l", "m">>,
     values |-> <<{F(n, 1) : n \in {1, 2, 11, 12}},
                  {F(n, 1) : n \in -1..1}>>],
    [fun |-> "noise_earth", labels |-> <<"snr">>, values |-> <<Signed>>],
    [fun |-> "axisymmetric_wavelets", labels |-> <<"B", "jmin", "j">>,
     values |-> <<{F(n, 1) : n \in {2, 3, 11}}, {F(n, 1) : n \in 0..2},
                  {F(n, 1) : n \in 0..3}>>],
    [fun |-> "earth", labels |-> <<>>, values |-> <<>>] }
Details2 == {<<0, 0>>, <<10, 0>>, <<0, 10>>, <<1, 2>>, <<12, 2>>, <<2, 1>>, <<-10, 2>>, <<1, 0>>}
Configs(f) == {[fun |-> f.fun, noise |-> d[1], smoothing |-> d[2],
                args |-> [i \in DOMAIN f.labels |->
                            [num |-> v[i].num, den |-> v[i].den, label |-> f.labels[i]]]] :
               v \in {w \in [DOMAIN f.labels -> UNION {f.values[i] : i \in DOMAIN f.values}
                                                 \cup {F(1, 1)}] :
                        \A i \in DOMAIN f.labels : w[i] \in f.values[i]},
               d \in Details2}
VARIABLES f, c
Init == f \in Functions /\ c = <<>>
Configure == c = <<>> /\ \E x \in Configs(f) : c' = <<x>> /\ UNCHANGED f
Next == Configure
Spec == Init /\ [][Next]_<<f, c>>
NameOf(x) == IF Bare THEN BareName(x) ELSE Name(x)
Injective == c = <<>> => LET all == UNION {Configs(g) : g \in {f}}
                         IN Cardinality({NameOf(x) : x \in all}) = Cardinality(all)
Emit == (Emitting /\ c # <<>>) => EmitCase(c)
=============================================================================
