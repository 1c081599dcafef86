---------------------------- MODULE SiftingTrace ----------------------------
(* Sifting convolutions, translations and rotations of the package.           *)
EXTENDS Sifting, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Same(a, b, k, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in DOMAIN a : CClose(a[i], CScale(k, b[i]), tol)
SameSet(a, b, k, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Same(a[j], b[j], k, tol)
Clauses(e) ==
    CASE e.kind = "sift" ->
            [ computed |-> e.outcome = "ok",
              product |-> e.outcome = "ok" => Same(e.got, Sift(e.f, e.g, e.n), e.scale, e.tol) ]
      [] e.kind = "sift_set" ->
            [ computed |-> e.outcome = "ok",
              product |-> e.outcome = "ok" =>
                SameSet(e.got, SiftSet(e.f, e.g, e.n), e.scale, e.tol) ]
      [] e.kind = "sift_sets" ->
            [ computed |-> e.outcome = "ok",
              product |-> e.outcome = "ok" =>
                SameSet(e.got, SiftSets(e.f, e.g, e.n), e.scale, e.tol) ]
      [] e.kind = "translate" ->
            (* values are in fixed point, coefficients integers *)
            [ computed |-> e.outcome = "ok",
              translated |-> e.outcome = "ok" =>
                Same(e.got, Translate(e.f, e.values, e.n), 1, e.tol) ]
      [] e.kind = "delta" ->
            [ computed |-> e.outcome = "ok",
              delta |-> e.outcome = "ok" => Same(e.got, Delta(e.values), 1, e.tol) ]
      [] e.kind = "near" ->
            [ computed |-> e.outcome = "ok",
              translated |-> e.outcome = "ok" =>
                \E v \in {e.values, e.exact} :
                    Same(e.got, Translate(e.f, v, e.n), 1, e.tol) ]
      [] e.kind = "near_delta" ->
            [ computed |-> e.outcome = "ok",
              delta |-> e.outcome = "ok" =>
                \E v \in {e.values, e.exact} : Same(e.got, Delta(v), 1, e.tol) ]
      [] e.kind = "rotate" ->
            [ computed |-> e.outcome = "ok",
              rotated |-> e.outcome = "ok" => Same(e.got, e.want, 1, e.tol) ]
      [] e.kind = "undefined" -> [ rejected |-> e.outcome = "error" ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
