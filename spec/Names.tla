------------------------------- MODULE Names -------------------------------
(* Names of configurations: the function, its arguments as fractions with     *)
(* their labels, and the details, all separated.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* an argument: its label, numerator and denominator *)
Arg(a) == "_" \o ToString(a.num) \o a.label
              \o (IF a.den = 1 THEN "" ELSE ToString(a.den))
BareArg(a) == ToString(a.num) \o (IF a.den = 1 THEN "" ELSE ToString(a.den))
RECURSIVE Join(_, _)
Join(args, i) == IF i > Len(args) THEN "" ELSE Arg(args[i]) \o Join(args, i + 1)
RECURSIVE JoinBare(_, _)
JoinBare(args, i) == IF i > Len(args) THEN "" ELSE BareArg(args[i]) \o JoinBare(args, i + 1)
Optional(label, x) == IF x = 0 THEN <<>> ELSE <<[num |-> x, den |-> 1, label |-> label]>>
Details(c) == Optional("noise", c.noise) \o Optional("smoothed", c.smoothing)
Name(c) == c.fun \o Join(c.args, 1) \o Join(Details(c), 1)
(* names which are ambiguous: without labels and separators *)
BareName(c) == c.fun \o JoinBare(c.args, 1) \o JoinBare(Details(c), 1)
(* pairs which contradict each other: the same name if and only if the same key *)
Contradicting(pairs) ==
    LET keys == {pairs[i][1] : i \in DOMAIN pairs}
        names == {pairs[i][2] : i \in DOMAIN pairs}
        both == {pairs[i] : i \in DOMAIN pairs}
    IN Cardinality(both) # Cardinality(names) \/ Cardinality(both) # Cardinality(keys)
=============================================================================
