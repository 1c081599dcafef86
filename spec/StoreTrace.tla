----------------------------- MODULE StoreTrace -----------------------------
(* Runs of the package against what a saved result may be used for.          *)
(* The state is that of Store in terms of what an observer knows: which       *)
(* configurations are completely saved, and the answer of each one.           *)
EXTENDS Num, TraceLog

VARIABLES l, bad, saved, ref
tvars == <<l, bad, saved, ref>>

SameValues(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], tol)
(* the functions up to the Shannon number *)
SameFunctions(a, b, n, tol) ==
    /\ Len(a) >= n
    /\ \A i \in 1..n : Len(a[i]) = Len(b[i])
                       /\ \A k \in DOMAIN a[i] : Close(a[i][k], b[i][k], tol)
Answer(e) ==
    IF e.outcome # "ok" THEN [succeeds |-> FALSE]
    ELSE LET r == ref[e.cfg]
         IN [ values |-> SameValues(e.ev, r.ev, e.tol),
              functions |-> SameFunctions(e.fun, r.fun, r.n, e.tol),
              number |-> e.n = r.n,
              orders |-> e.orders = r.orders,
              reused |-> e.cfg \in saved => e.wrote = <<>>,
              saved |-> e.saves => e.present ]
Clauses(e) ==
    CASE e.kind = "reference" -> [computed |-> e.outcome = "ok"]
      [] e.kind = "begin" -> [known |-> TRUE]
      [] e.kind = "remove" -> [known |-> TRUE]
      [] e.kind = "fault" -> [ right_or_error |->
            e.outcome = "ok" => SameValues(e.ev, ref[e.cfg].ev, e.tol)
                /\ SameFunctions(e.fun, ref[e.cfg].fun, ref[e.cfg].n, e.tol) ]
      [] e.kind = "compute" -> Answer(e)
      [] OTHER -> [known_event |-> FALSE]

Init0 == l = 1 /\ bad = <<>> /\ saved = {} /\ ref = [x \in {} |-> 0]
TraceInit == Init0
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ bad' = bad \o Report(l, Failing(Clauses(e)))
          /\ saved' = CASE e.kind = "begin" -> {}
                        [] e.kind = "remove" -> saved \ {e.cfg}
                        [] e.kind = "fault" -> {}
                        [] e.kind = "compute" /\ e.outcome = "ok" /\ e.saves ->
                                saved \cup {e.cfg}
                        [] OTHER -> saved
          /\ ref' = IF e.kind = "reference" /\ e.outcome = "ok"
                    THEN (e.cfg :> [ev |-> e.ev, fun |-> e.fun, n |-> e.n,
                                       orders |-> e.orders]) @@ ref
                    ELSE ref
    /\ l' = l + 1
    /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
