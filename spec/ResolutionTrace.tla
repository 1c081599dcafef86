--------------------------- MODULE ResolutionTrace ---------------------------
(* Recorded changes of the resolution.                                        *)
EXTENDS Resolution, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : CClose(a[i], b[i], tol)
Ok(e) == e.outcome = "ok"
(* a + b root(2) over four, in units of 1/unit *)
Unit4(x, unit) == (x[1] * unit) \div 4 + (x[2] * ((14142 * unit) \div 10000)) \div 4
Exactly(e) == \A i \in 0..e.R : \A j \in 0..2 * e.R - 1 :
    LET v == FieldAt(Padded(e.c, 4), e.R, <<i, j>>)
    IN CClose(e.got[i + 1][j + 1], <<Unit4(v[1], e.unit), Unit4(v[2], e.unit)>>, e.tol)
Clauses(e) ==
    CASE e.kind = "exact" ->
            [ computed |-> Ok(e),
              shape |-> Ok(e) => Len(e.got) = e.R + 1 /\ \A i \in DOMAIN e.got : Len(e.got[i]) = 2 * e.R,
              exact |-> (Ok(e) /\ Len(e.got) = e.R + 1) => Exactly(e) ]
      [] e.kind = "boost" ->
            [ computed |-> Ok(e),
              shape |-> Ok(e) => e.shape = <<e.R + 1, 2 * e.R>>,
              values |-> Ok(e) => SameC(e.got, e.want, e.tol),
              (* samples shared with the coarse grid *)
              shared |-> Ok(e) => SameC(e.fine, e.coarse, e.tol),
              places |-> Ok(e) => \A k \in DOMAIN e.places :
                 Coincide(e.L, e.places[k][1], e.R, e.places[k][2]),
              coefficients |-> Ok(e) => SameC(e.back, Padded(e.c, e.R * e.R), e.tol),
              real |-> (Ok(e) /\ e.reality) => \A i \in DOMAIN e.got : e.got[i][2] = 0,
              kept |-> Ok(e) => e.kept ]
      [] e.kind = "same" -> [ computed |-> Ok(e), same |-> Ok(e) => e.same ]
      [] e.kind = "resolutions" ->
            [ computed |-> Ok(e),
              table |-> Ok(e) => \A L \in DOMAIN e.got : e.got[L] = PlotResolution(L),
              never_below |-> Ok(e) => \A L \in DOMAIN e.got :
                 e.got[L] >= L /\ e.got[L] % L = 0 /\ IsPowerOfTwo(e.got[L] \div L) ]
      [] e.kind = "nearest" ->
            [ computed |-> Ok(e),
              sample |-> Ok(e) => e.off = <<0, 0>>,
              longitude |-> Ok(e) => NearestCol(e.L, e.alpha[1], e.alpha[2], e.got[1]),
              colatitude |-> Ok(e) => NearestRow(e.L, e.beta[1], e.beta[2], e.got[2]) ]
      [] e.kind = "amplitude" ->
            [ computed |-> Ok(e), greatest |-> Ok(e) => Close(e.got, e.want, e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
