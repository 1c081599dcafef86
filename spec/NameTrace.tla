----------------------------- MODULE NameTrace -----------------------------
(* Recorded names of the package, with a key for each configuration.          *)
EXTENDS Names, TraceLog, Num
VARIABLES l, bad
tvars == <<l, bad>>

(* letters, digits, and marks without a meaning in a path *)
Allowed == {45, 46, 95} \cup 48..57 \cup 65..90 \cup 97..122
Clauses(e) ==
    CASE e.kind = "names" ->
            [ computed |-> e.outcome = "ok",
              one_name_each |-> e.outcome = "ok" => ~Contradicting(e.pairs),
              same_in_other_runs |-> e.outcome = "ok" => e.again = e.first,
              characters |-> e.outcome = "ok" => \A i \in DOMAIN e.codes : e.codes[i] \in Allowed,
              not_empty |-> e.outcome = "ok" => \A i \in DOMAIN e.pairs : e.pairs[i][2] # "" ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
