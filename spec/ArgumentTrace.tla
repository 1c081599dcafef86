---------------------------- MODULE ArgumentTrace ----------------------------
(* Recorded constructions of the package.                                     *)
EXTENDS Arguments, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Clauses(e) ==
    CASE e.kind = "construction" ->
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              accepted |-> Expected(e.case) = "accepted" => e.outcome # "rejected",
              rejected |-> Expected(e.case) = "rejected" => e.outcome # "accepted",
              finite |-> e.outcome = "accepted" => e.finite ]
      [] e.kind = "size" ->
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              as_expected |-> (e.outcome = "accepted") = (e.size >= 1) ]
      [] e.kind = "order" ->
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              as_expected |-> (e.outcome = "accepted")
                                = (OrderFits(e.L, e.order) /\ e.theta_max # 0) ]
      [] e.kind = "region" ->
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              as_expected |-> (e.outcome = "accepted")
                                = (AngleFits(e.angles) /\ (Restricted(e.angles) \/ e.mask)) ]
      [] e.kind = "name" ->
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              as_expected |-> (e.outcome = "accepted") = e.known ]
      [] e.kind = "decomposition" ->
            (* a decomposition needs one signal, of the dimension of the space *)
            [ decided |-> e.outcome \in {"accepted", "rejected"},
              as_expected |-> (e.outcome = "accepted")
                                = (e.signals > 0 /\ e.rank >= 0 /\ e.rank < e.limit) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
