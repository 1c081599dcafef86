----------------------------- MODULE NoiseTrace -----------------------------
(* Recorded noisings of the package.  Noise of a reference in a process of    *)
(* its own gives the unit numbers z.                                          *)
EXTENDS Noise, Reality, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : CClose(a[i], b[i], tol)
Times(z, sigma, unit) == [i \in DOMAIN z |-> <<(z[i][1] * sigma) \div unit,
                                                (z[i][2] * sigma) \div unit>>]
Clauses(e) ==
    CASE e.kind = "exact" ->
            (* sigma is decided here, from the signal of integers *)
            [ computed |-> e.outcome = "ok",
              level |-> e.outcome = "ok" =>
                 /\ IsExact(e.signal)
                 /\ SameC(e.got, Times(e.z, Sigma(e.signal, e.ratio, e.unit), e.unit),
                          e.tol + Abs(Sigma(e.signal, e.ratio, e.unit)) \div e.unit),
              real |-> (e.outcome = "ok" /\ e.harmonic) => Hermitian(e.got, e.tol) ]
      [] e.kind = "general" ->
            [ computed |-> e.outcome = "ok",
              level |-> e.outcome = "ok" => SameC(e.got, e.want, e.tol),
              sigma |-> e.outcome = "ok" => Close(e.sigma, e.want_sigma, e.tol),
              ratio |-> e.outcome = "ok" => Close(e.ratio, e.want_ratio, e.tol) ]
      [] e.kind = "units" ->
            (* mean squares of groups of the unit numbers, in thousandths *)
            [ computed |-> e.outcome = "ok",
              unit_variance |-> e.outcome = "ok" => \A i \in DOMAIN e.groups :
                    Close(e.groups[i], e.expected[i], (e.expected[i] * e.slack) \div 1000),
              independent |-> e.outcome = "ok" => e.distinct = e.drawn ]
      [] e.kind = "function" ->
            [ computed |-> e.outcome = "ok",
              plain_kept |-> e.outcome = "ok" => SameC(e.kept, e.plain, 0),
              sum |-> e.outcome = "ok" => SameC(e.got, Add(e.plain, e.want), e.tol),
              reported |-> e.outcome = "ok" => Close(e.snr, e.want_snr, 1),
              again |-> e.outcome = "ok" => SameC(e.again, e.got, 0) ]
      [] e.kind = "no_noise" ->
            [ computed |-> e.outcome = "ok",
              unchanged |-> e.outcome = "ok" => SameC(e.got, e.plain, 0),
              nothing_kept |-> e.outcome = "ok" => e.no_kept /\ e.no_snr ]
      [] e.kind = "noise_function" ->
            [ computed |-> e.outcome = "ok",
              noise |-> e.outcome = "ok" => SameC(e.got, e.want, e.tol) ]
      [] e.kind = "random signal" ->
            [ computed |-> e.outcome = "ok",
              length |-> e.outcome = "ok" => e.length = e.L * e.L,
              reproducible |-> e.outcome = "ok" => e.again,
              next |-> e.outcome = "ok" => ~e.repeats,
              variance |-> e.outcome = "ok" => e.scaled,
              (* no number is in more than one part *)
              independent |-> e.outcome = "ok" => e.distinct = 2 * e.length ]
      [] e.kind = "random moments" ->
            [ computed |-> e.outcome = "ok",
              moments |-> e.outcome = "ok" => \A k \in DOMAIN Moments :
                    Close(e.got[k], Moments[k], e.slack[k]) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
