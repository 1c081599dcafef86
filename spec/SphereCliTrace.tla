---------------------------- MODULE SphereCliTrace ----------------------------
(* Recorded runs of the command, with the figures which it shows.             *)
EXTENDS SphereCli, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

(* the samples of the figure, where the range of the field allows it *)
Shows(e) == \A i \in DOMAIN e.want :
    e.want[i].hidden = (e.got[i] = e.hidden)
    /\ (~e.want[i].hidden /\ (e.o.unnormalise \/ e.hi - e.lo > 2000)
        => Close(e.got[i], Colour(e.o, e.want[i].v, e.lo, e.hi, e.scale), e.tol))
Clauses(e) ==
    CASE e.kind = "run" /\ Refused(e.o) -> [refused |-> e.outcome # "ok"]
      [] e.kind = "run" /\ e.outcome # "ok" -> [runs |-> FALSE]
      [] e.kind = "run" ->
            [ one_figure |-> e.figures = 1,
              pipeline |-> e.ops = Ops(e.o),
              shape |-> e.shape = <<Shown(e.o, e.L) + 1, 2 * Shown(e.o, e.L) + 1>>,
              field |-> Shows(e),
              name |-> e.filename = e.name \o Suffix(e.o, e.other, e.L),
              annotation |-> Len(e.annotations) = (IF Annotated(e.o) THEN 1 ELSE 0)
                    /\ \A i \in DOMAIN e.annotations : \A k \in 1..3 :
                            Close(e.annotations[i][k], e.point[k], 2),
              colour_range |->
                IF e.o.unnormalise
                THEN LET top == IF e.o.noise THEN e.amplitude ELSE Max2(Abs(e.lo), Abs(e.hi))
                     IN Close(e.cmax, top, e.tol) /\ Close(e.cmin, -top, e.tol)
                ELSE e.cmin = 0 /\ e.cmax = e.scale ]
      [] e.kind = "usage" -> [ decided |-> e.outcome \in {"ok", "exit", "error"},
                                 as_expected |-> (e.outcome = "ok") = e.valid ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
