----------------------------- MODULE RegionTrace -----------------------------
(* Regions which the package identified against Regions, in any order.        *)
EXTENDS Regions, Num, TraceLog

VARIABLES l, bad, nameOf, keyOf
tvars == <<l, bad, nameOf, keyOf>>

Want(e) == IF e.kind = "env" THEN FromEnv(e.given) ELSE e.given
Accepted(e) == Type(Want(e)) # "rejected"
Outside(e) == IF e.side = "low" THEN e.nudge < 0 ELSE e.nudge > 0
Edge(e) == [ edge |-> (e.outcome = "error") = Outside(e) ]
(* regions which differ in a whole degree have different names *)
Sweep(e) == [ swept |-> e.outcome = "ok",
              own_names |-> e.outcome = "ok" => /\ Len(e.names) = e.degrees
                                                /\ Cardinality(ToSet(e.names)) = e.degrees ]
Clauses(e) ==
  IF e.kind = "edge" THEN Edge(e) ELSE IF e.kind = "sweep" THEN Sweep(e) ELSE
    LET w == Want(e)
        k == Key(w)
    IN IF e.kind \notin {"region", "env", "slepian"} THEN [known_event |-> FALSE]
       ELSE IF ~Accepted(e) THEN [rejected |-> e.outcome = "error"]
       ELSE IF e.outcome # "ok" THEN [accepted |-> FALSE]
       ELSE [ type |-> e.type = Type(w),
              parameters |-> \A f \in DOMAIN e.params :
                    e.params[f] = w[f],
              same_name |-> k \in DOMAIN nameOf => nameOf[k] = e.name,
              own_name |-> Whole(w) /\ e.name \in DOMAIN keyOf => keyOf[e.name] = k,
              solver |-> e.kind = "slepian" =>
                    e.class = CASE Type(w) = "polar" -> "SlepianPolarCap"
                                [] Type(w) = "lim_lat_lon" -> "SlepianLimitLatLon"
                                [] OTHER -> "SlepianArbitrary" ]
TraceInit == l = 1 /\ bad = <<>> /\ nameOf = [x \in {} |-> 0]
             /\ keyOf = [x \in {} |-> 0]
Learn(e) == e.kind \in {"region", "env", "slepian"} /\ Accepted(e) /\ e.outcome = "ok"
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           k == IF e.kind \in {"edge", "sweep"} THEN <<>> ELSE Key(Want(e))
       IN /\ bad' = bad \o Report(l, Failing(Clauses(e)))
          /\ nameOf' = IF Learn(e) /\ k \notin DOMAIN nameOf
                       THEN (k :> e.name) @@ nameOf ELSE nameOf
          /\ keyOf' = IF Learn(e) /\ Whole(Want(e)) /\ e.name \notin DOMAIN keyOf
                      THEN (e.name :> k) @@ keyOf ELSE keyOf
    /\ l' = l + 1
    /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
