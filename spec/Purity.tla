------------------------------- MODULE Purity -------------------------------
(* Calls of a library whose results are functions of their arguments.  What   *)
(* was seen is a map from calls to results and from objects to contents; both *)
(* only ever grow.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the map knows another value *)
Differs(known, k, v) == k \in DOMAIN known /\ known[k] # v
Learn(known, k, v) == IF k \in DOMAIN known THEN known ELSE (k :> v) @@ known
RECURSIVE LearnAll(_, _, _)
LearnAll(known, ks, vs) == IF ks = <<>> THEN known
    ELSE LearnAll(Learn(known, Head(ks), Head(vs)), Tail(ks), Tail(vs))
=============================================================================
