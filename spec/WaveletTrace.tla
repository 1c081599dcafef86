---------------------------- MODULE WaveletTrace ----------------------------
(* Generating functions, wavelets and wavelet transforms of the package.      *)
EXTENDS Wavelets, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, k, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in DOMAIN a : CClose(a[i], CScale(k, b[i]), tol)
SameRows(a, b, k, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : SameC(a[j], b[j], k, tol)
(* in thousands, such that the sum of squares is a million *)
SumSq(rows, i) == Sum([k \in DOMAIN rows |-> Sqr(rows[k][i])])
TilingClauses(e) ==
    [ computed |-> e.outcome = "ok",
      as_many |-> e.outcome = "ok" => /\ Len(e.rows) = e.jmax - e.j0 + 2
                                      /\ \A k \in DOMAIN e.rows : Len(e.rows[k]) = e.n,
      largest_scale |-> Pow(e.B, e.jmax) >= e.n,
      non_negative |-> e.outcome = "ok" =>
            \A k \in DOMAIN e.rows : \A i \in DOMAIN e.rows[k] : e.rows[k][i] >= 0,
      squares_to_one |-> e.outcome = "ok" =>
            \A i \in DOMAIN e.rows[1] : Close(SumSq(e.rows, i), Sqr(e.scale), e.tol),
      support |-> e.outcome = "ok" =>
            \A k \in DOMAIN e.rows : \A i \in DOMAIN e.rows[k] :
                e.rows[k][i] > 0 => MaySupport(i - 1, e.B, e.j0, k) ]
ZeroRow(r, tol) == \A i \in DOMAIN r : CClose(r[i], CZero, tol)
Clauses(e) ==
    CASE e.kind = "tiling" -> TilingClauses(e)
      [] e.kind = "analysis" ->
            [ computed |-> e.outcome = "ok",
              convolution |-> e.outcome = "ok" =>
                SameRows(e.got, Analysis(e.f, e.psi), e.scale, e.tol) ]
      [] e.kind = "synthesis" ->
            [ computed |-> e.outcome = "ok",
              sum |-> e.outcome = "ok" => SameC(e.got, Synthesis(e.w, e.psi), e.scale, e.tol) ]
      [] e.kind = "slepian_analysis" ->
            LET w == SlepianAnalysis(e.f, e.psi, e.n)
            IN [ computed |-> e.outcome = "ok",
                 convolution |-> e.outcome = "ok" =>
                    /\ Len(e.got) <= Len(w)
                    /\ \A j \in DOMAIN e.got : SameC(e.got[j], w[j], e.scale, e.tol)
                    /\ \A j \in Len(e.got) + 1..Len(w) : IsZero(w[j]) ]
      [] e.kind = "slepian_synthesis" ->
            [ computed |-> e.outcome = "ok",
              sum |-> e.outcome = "ok" =>
                SameC(e.got, SlepianSynthesis(e.w, e.psi, e.n), e.scale, e.tol) ]
      [] e.kind = "roundtrip" ->
            [ computed |-> e.outcome = "ok",
              exact |-> e.outcome = "ok" => SameC(e.got, e.f, e.scale, e.tol) ]
      [] e.kind = "selection" ->
            (* sets are numbered from the scaling function, no j: scaling *)
            [ computed |-> e.outcome = "ok",
              selected |-> e.outcome = "ok" =>
                SameC(e.got, e.sets[IF e.j < 0 THEN 1 ELSE e.j + 2], 1, e.tol) ]
      [] e.kind = "sets" ->
            [ computed |-> e.outcome = "ok",
              sets |-> e.outcome = "ok" => SameRows(e.got, e.want, 1, e.tol) ]
      [] e.kind = "non_zero" ->
            [ computed |-> e.outcome = "ok",
              kept |-> e.outcome = "ok" =>
                SameRows(e.got, SelectSeq(e.rows, LAMBDA r : ~IsZero(r)), 1, 0) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
