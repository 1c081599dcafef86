------------------------- MODULE DecompositionTrace -------------------------
(* Slepian decompositions and reconstructions of the package.                 *)
EXTENDS Decomposition, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, k, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in DOMAIN a : CClose(a[i], CScale(k, b[i]), tol)
Clauses(e) ==
    CASE e.kind = "harmonic" ->
            [ computed |-> e.outcome = "ok",
              inner_products |-> e.outcome = "ok" =>
                SameC(e.got, Forward(e.flm, e.vecs, e.n), e.scale, e.tol) ]
      [] e.kind = "integral" ->
            [ computed |-> e.outcome = "ok",
              inner_products |-> e.outcome = "ok" => SameC(e.got, e.want, 1, e.tol) ]
      [] e.kind = "method" ->
            LET m == Method(e.given_flm, e.given_f, e.given_mask)
            IN [ required |-> m = "rejected" <=> e.outcome = "error",
                 precedence |-> e.outcome = "ok" /\ m # "rejected" =>
                    SameC(e.got, CASE m = "harmonic" -> e.harmonic
                                   [] m = "region" -> e.region
                                   [] OTHER -> e.sphere, 1, e.tol) ]
      [] e.kind = "rank" ->
            [ rejected |-> ~RankValid(e.halves, e.number) => e.outcome = "error",
              accepted |-> RankValid(e.halves, e.number) => e.outcome = "ok"
                           /\ CClose(e.got, e.want, e.tol) ]
      [] e.kind = "count" ->
            [ rejected |-> e.n > e.number \/ e.n < 0 => e.outcome = "error",
              as_many |-> e.n <= e.number /\ e.n >= 0 =>
                            e.outcome = "ok" /\ e.length = e.n,
              default |-> e.default = e.shannon ]
      [] e.kind = "inverse" ->
            [ computed |-> e.outcome = "ok",
              leading_functions |-> e.outcome = "ok" => SameC(e.got, e.want, 1, e.tol) ]
      [] e.kind = "roundtrip" ->
            [ computed |-> e.outcome = "ok",
              returns |-> e.outcome = "ok" => SameC(e.got, e.want, 1, e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
