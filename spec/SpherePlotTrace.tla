---------------------------- MODULE SpherePlotTrace ----------------------------
(* Recorded figures of fields.                                                *)
EXTENDS SpherePlot, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

AllClose(a, b, tol) == /\ DOMAIN a = DOMAIN b
                       /\ \A r \in DOMAIN a : DOMAIN a[r] = DOMAIN b[r]
                       /\ \A r \in DOMAIN a : \A c \in DOMAIN a[r] : Close(a[r][c], b[r][c], tol)
(* positions: colatitude r of L, longitude c of 2 L, from a table of cosines  *)
(* and sines of the multiples of pi / L                                       *)
Position(e, r, c) == <<(e.sin[r] * e.cos[c]) \div e.unit, (e.sin[r] * e.sin[c]) \div e.unit,
                       e.cos[r]>>
Placed(e, at) == \A i \in DOMAIN at :
    \A k \in 1..3 : Close(at[i][3][k], Position(e, at[i][1], at[i][2])[k], 3)
Near(e, x, v) == IF v.hidden THEN x = e.hidden
                 ELSE Close(x, IF e.norm THEN Colour(Part(e.part, v.v), e.lo, e.hi, e.scale)
                               ELSE Part(e.part, v.v), e.tol)
Suffix(e) == (IF e.upsample THEN "_res" \o ToString(Resolution(e.L)) ELSE "")
             \o "_" \o e.part \o (IF e.norm THEN "_norm" ELSE "")
Common(e, top, one) ==
    [ placed |-> Placed(e, e.at),
      name |-> e.filename = e.name \o Suffix(e),
      annotations |-> e.notes = e.annotations,
      colour_range |-> /\ Close(e.cmax, top, e.tol)
                       /\ Close(e.cmin, IF e.norm THEN 0 ELSE -top, e.tol)
                       /\ Close(e.cmid, IF e.norm THEN one \div 2 ELSE 0, e.tol),
      colour_bar |-> e.norm \/ (Close(e.tick0, -top, e.tol) /\ Close(e.dtick, top, e.tol)),
      field_kept |-> e.kept ]
Clauses(e) ==
    CASE e.outcome = "died" -> [decided |-> FALSE]
      [] e.kind = "wrong_size" -> [rejected |-> e.outcome = "error"]
      [] e.outcome # "ok" -> [draws |-> FALSE]
      [] e.kind = "exact" ->
            LET want == Figure(e.part, e.norm, e.f, e.mask, e.scale, e.hidden)
            IN [ colours |-> AllClose(e.got, want, e.tol) ]
               @@ Common(e, Top(e.part, e.norm, e.f, e.amplitude, e.scale), e.scale)
      [] e.kind = "sampled" ->
            LET R == IF e.upsample THEN Resolution(e.L) ELSE e.L
            IN [ shape |-> e.shape = <<R + 1, 2 * R + 1>>,
                 colours |-> \A i \in DOMAIN e.want : Near(e, e.got[i], e.want[i]) ]
               @@ Common(e, IF e.norm THEN e.scale
                            ELSE IF e.amplitude # <<>> THEN e.amplitude[1]
                            ELSE Max2(Abs(e.lo), Abs(e.hi)), e.scale)
      [] e.kind = "amplitude" -> [ largest |-> Close(e.got, e.want, e.tol) ]
      [] e.kind = "small" ->
            (* whatever the size of the values *)
            [ in_range |-> e.least = 0 /\ e.most = e.scale,
              linear |-> \A i \in DOMAIN e.got : Close(e.got[i],
                            Colour(e.f[i], e.lo, e.hi, e.scale), e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
