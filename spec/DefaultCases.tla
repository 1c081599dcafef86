----------------------------- MODULE DefaultCases -----------------------------
(* Functions with some of their parameters given by name, one after the other *)
(* and in any order.                                                          *)
EXTENDS Definitions, CaseLog
CONSTANTS Positional, Emitting

VARIABLES fun, given, order, made
vars == <<fun, given, order, made>>
Choices(k) == CASE k = "B" -> {2, 3}
                [] k = "j_min" -> {0, 1, 2}
                [] k = "j" -> {0, 1}
                [] k = "rank" -> {0, 1}
                [] k = "ell" -> {0, 1, 2}
                [] k = "m" -> {-1, 0, 1}
                [] k = "spin" -> {-1, 0, 1, 2}
                [] k = "SNR" -> {-3, 4}
                [] OTHER -> {1, 2}
(* a design in which the values go to the parameters in the order given *)
Seen == IF Positional THEN [k \in {Names(fun)[i] : i \in DOMAIN order} |->
                              given[order[CHOOSE i \in DOMAIN order : Names(fun)[i] = k]]]
        ELSE given
Init == fun \in Everything /\ given = <<>> /\ order = <<>> /\ made = FALSE
Give == /\ ~made
        /\ \E k \in Named(fun) \ DOMAIN given : \E v \in Choices(k) :
              /\ given' = [x \in DOMAIN given \cup {k} |->
                             IF x = k THEN F(v, 1) ELSE given[x]]
              /\ order' = Append(order, k)
        /\ UNCHANGED <<fun, made>>
Valid == LET e == Effective(fun, Seen) IN
    fun = "spherical_harmonic" => Abs(e["m"][1]) <= e["ell"][1]
Make == ~made /\ Valid /\ made' = TRUE /\ UNCHANGED <<fun, given, order>>
Next == Give \/ Make
Spec == Init /\ [][Next]_vars

(* what is given is had, and all others are as with nothing given *)
Had == made => \A k \in DOMAIN given : Effective(fun, Seen)[k] = given[k]
Untouched == made => \A k \in Named(fun) \ DOMAIN given :
                        Effective(fun, Seen)[k] = Effective(fun, <<>>)[k]
Emit == (Emitting /\ made) => EmitCase([fun |-> fun,
    given |-> [i \in DOMAIN order |-> <<order[i], given[order[i]][1]>>]])
=============================================================================
