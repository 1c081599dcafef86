--------------------------- MODULE ThresholdTrace ---------------------------
(* Recorded thresholdings of the package.                                     *)
EXTENDS Threshold, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Same(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : CClose(a[i], b[i], tol)
(* the coefficients of what is left of the field of each scale *)
Row(s, k) == Remaining(s.mags, s.thresholds, s.parts, k)
RowOk(got, s, tol) == \A k \in DOMAIN got : CClose(got[k], Row(s, k), tol)
Clauses(e) ==
    CASE e.kind = "values" ->
            [ computed |-> e.outcome = "ok",
              below_to_zero |-> e.outcome = "ok" => e.got = Hard(e.f, e.n * e.sigma),
              input_kept |-> e.outcome = "ok" => e.after = e.f ]
      [] e.kind = "pointwise" ->
            [ computed |-> e.outcome = "ok",
              below_to_zero |-> e.outcome = "ok" =>
                 e.got = [i \in DOMAIN e.f |-> IF Below(e.f[i], e.n * e.sigma[i]) THEN CZero
                                               ELSE e.f[i]] ]
      [] e.kind = "rows" ->
            [ computed |-> e.outcome = "ok",
              as_many |-> e.outcome = "ok" => Len(e.got) = e.skip + Len(e.scales),
              scaling_alone |-> e.outcome = "ok" =>
                 \A j \in 1..e.skip : Same(e.got[j], e.before[j], 0),
              thresholded |-> e.outcome = "ok" =>
                 \A j \in DOMAIN e.scales : RowOk(e.got[j + e.skip], e.scales[j], e.tol),
              input_kept |-> e.outcome = "ok" => e.after = e.before ]
      [] e.kind = "sigma" ->
            [ computed |-> e.outcome = "ok",
              sigma |-> e.outcome = "ok" =>
                 /\ Len(e.got) = Len(e.want)
                 /\ \A j \in DOMAIN e.got :
                      /\ Len(e.got[j]) = Len(e.want[j])
                      /\ \A i \in DOMAIN e.got[j] : Close(e.got[j][i], e.want[j][i], e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
