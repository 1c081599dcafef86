---------------------------- MODULE RealityTrace ----------------------------
(* Recorded functions of the package, after construction and operations.      *)
EXTENDS Reality, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Clauses(e) ==
    CASE e.kind = "function" ->
            [ computed |-> e.outcome = "ok",
              as_many |-> e.outcome = "ok" => Len(e.flm) = e.L * e.L,
              symmetric_if_real |-> (e.outcome = "ok" /\ e.reality) =>
                                        Hermitian(e.flm, e.tol),
              field_real_if_declared |-> (e.outcome = "ok" /\ e.reality) =>
                                        Abs(e.imaginary) <= e.tol,
              same_field_as_real |-> (e.outcome = "ok" /\ e.reality) =>
                                        Abs(e.difference) <= e.tol,
              (* the declarations of which the field depends in no way *)
              spin |-> e.outcome = "ok" => e.spin = e.want_spin,
              of_spin |-> (e.outcome = "ok" /\ ~e.noised) =>
                                        OfSpin(e.flm, Abs(e.spin), 0) ]
      [] e.kind = "slepian" ->
            (* the field of the leading Slepian functions *)
            [ field_real_if_declared |-> e.reality => Abs(e.imaginary) <= e.tol,
              spin |-> e.spin = e.want_spin ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
