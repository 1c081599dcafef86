---------------------------- MODULE WorkersTrace ----------------------------
(* Parallel computations of the package against Workers: what one worker      *)
(* computes is the reference of every schedule.                               *)
EXTENDS Num, TraceLog

VARIABLES l, bad, ref
tvars == <<l, bad, ref>>

SameAs(e, r) == /\ Len(e.ev) = Len(r.ev) /\ Len(e.mat) = Len(r.mat)
                /\ \A i \in DOMAIN e.ev : Close(e.ev[i], r.ev[i], e.tol)
                /\ \A i \in DOMAIN e.mat : Close(e.mat[i], r.mat[i], e.tol)
Right(e) == e.outcome = "ok" /\ SameAs(e, ref[e.cfg])
Covered(e) == UNION {ToSet(e.chunks[w]) : w \in DOMAIN e.chunks}
Clauses(e) ==
    CASE e.kind = "reference" -> [computed |-> e.outcome = "ok",
                                  released |-> e.leaked = 0]
      [] e.kind = "chunks" ->
            [ exhaustive |-> Covered(e) = 0..e.n - 1,
              exclusive |-> Sum([w \in DOMAIN e.chunks |-> Len(e.chunks[w])]) = e.n ]
      [] e.kind = "schedule" ->
            [ same_result |-> Right(e), released |-> e.leaked = 0,
              saved |-> e.saves => e.wrote # <<>> ]
      [] e.kind = "fault" ->
            [ failure_reaches_caller |-> e.fired => e.outcome = "error",
              cause_reported |-> e.fired /\ e.outcome = "error" => e.injected,
              result_complete |-> e.outcome = "ok" => Right(e),
              nothing_saved |-> e.fired => e.wrote = <<>>,
              released |-> e.leaked = 0 ]
      [] e.kind = "retry" ->
            [ same_result |-> Right(e), released |-> e.leaked = 0 ]
      [] OTHER -> [known_event |-> FALSE]

TraceInit == l = 1 /\ bad = <<>> /\ ref = [x \in {} |-> 0]
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ bad' = bad \o Report(l, Failing(Clauses(e)))
          /\ ref' = IF e.kind = "reference" /\ e.outcome = "ok"
                    THEN (e.cfg :> [ev |-> e.ev, mat |-> e.mat]) @@ ref ELSE ref
    /\ l' = l + 1
    /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
