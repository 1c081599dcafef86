---------------------------- MODULE MeshPlotTrace ----------------------------
(* Recorded figures of meshes.                                                *)
EXTENDS MeshPlot, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Near(a, b, tol) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN b : Close(a[i], b[i], tol)
(* the vertices of the figure, of those sampled *)
Placed(e) == \A i \in DOMAIN e.at : Near(e.at[i][2], Upright(e.at[i][1]), 1)
Scaled(e, top, one) ==
    [ colour_range |-> /\ Close(e.cmax, IF e.norm THEN one ELSE top, e.tol)
                       /\ Close(e.cmin, IF e.norm THEN 0 ELSE -top, e.tol)
                       /\ Close(e.cmid, IF e.norm THEN one \div 2 ELSE 0, e.tol),
      colour_bar |-> e.norm \/ (Close(e.tick0, -top, e.tol) /\ Close(e.dtick, top, e.tol)),
      placed |-> Placed(e),
      same_faces |-> e.same_faces,
      kept |-> e.kept ]
Face(e, v) == IF v.hidden THEN e.hidden
              ELSE IF e.norm THEN Colour(v.v, e.lo, e.hi, e.scale) ELSE v.v
Clauses(e) ==
    CASE e.kind = "usage" -> [ usage |-> IF e.valid THEN e.outcome = "ok"
                                         ELSE e.outcome \in {"exit", "error"} ]
      [] e.outcome # "ok" -> [draws |-> FALSE]
      [] e.kind = "exact" ->
            [ colours |-> Near(e.got, MeshFigure(e.faces, e.f, e.mask, e.norm, e.scale, e.hidden),
                               e.tol),
              name |-> e.filename = "mesh" \o (IF e.norm THEN "_norm" ELSE "") ]
            @@ Scaled(e, e.scale * Largest(e.f, e.amplitude), e.scale)
      [] e.kind = "run" ->
            [ colours |-> /\ Len(e.got) = Len(e.want)
                          /\ \A i \in DOMAIN e.want :
                                IF e.want[i].hidden /\ Hidden(e.o) THEN e.got[i] = e.hidden
                                ELSE Close(e.got[i], Face(e, [e.want[i] EXCEPT !.hidden = FALSE]),
                                           e.tol),
              name |-> e.filename = Name(e.o, e.base),
              shape |-> e.shape = e.faces,
              eye |-> Near(e.eye, Eye(e.o, e.config), 2),
              centre |-> Near(e.centre, Centre(e.o, e.config), 1),
              bar |-> Close(e.bar, Bar(e.o, e.config), 1) ]
            @@ Scaled(e, IF Amplitude(e.o) THEN e.amplitude ELSE e.top, e.scale)
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
