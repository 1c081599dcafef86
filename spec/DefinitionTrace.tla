---------------------------- MODULE DefinitionTrace ----------------------------
(* Recorded functions of the package.                                         *)
EXTENDS Definitions, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : CClose(a[i], b[i], tol)
(* relative to the size, for the rounding of integers and divisions *)
Near(x, y, tol) == Close(x, y, tol + Abs(y) \div 100000)
Unit(i, n, at, scale) == IF i = at THEN <<scale, 0>> ELSE CZero
Harmonics(e) == {<<k, EllOf(k - 1), EmmOf(k - 1)>> : k \in DOMAIN e.zero}
Clauses(e) ==
    CASE e.kind = "coefficients" ->
            (* for each coefficient whether it is zero, real and positive, and  *)
            (* minus twice its logarithm, unless too small for any              *)
            LET sup == [k \in DOMAIN e.zero |->
                          Supported(e.fun, e.args, EllOf(k - 1), EmmOf(k - 1))]
                want == [k \in DOMAIN e.zero |-> IF sup[k]
                          THEN Exponent(e.fun, e.args, EllOf(k - 1), EmmOf(k - 1), e.unit)
                          ELSE 0]
            IN [ computed |-> e.outcome = "ok",
                 bandlimit |-> e.outcome = "ok" => Len(e.zero) = e.L * e.L,
                 support |-> e.outcome = "ok" => \A k \in DOMAIN e.zero :
                     IF sup[k] THEN e.zero[k] => want[k] > 1300 * e.unit ELSE e.zero[k],
                 positive |-> e.outcome = "ok" => \A k \in DOMAIN e.zero :
                     e.zero[k] \/ e.positive[k],
                 values |-> e.outcome = "ok" => \A k \in DOMAIN e.zero :
                     (sup[k] /\ ~e.zero[k] /\ want[k] < 1400 * e.unit) => Near(e.exponent[k], want[k], e.tol) ]
      [] e.kind = "delta" ->
            [ computed |-> e.outcome = "ok",
              bandlimit |-> e.outcome = "ok" => Len(e.square) = e.L * e.L,
              values |-> e.outcome = "ok" => \A k \in DOMAIN e.square :
                 e.square[k] = IF EmmOf(k - 1) = 0 THEN DeltaSquare(EllOf(k - 1)) * e.unit
                               ELSE 0,
              positive |-> e.outcome = "ok" => \A k \in DOMAIN e.positive : e.positive[k] ]
      [] e.kind = "field" ->
            (* the samples of the reference are checked here, the function has  *)
            (* their transform                                                  *)
            [ computed |-> e.outcome = "ok",
              samples |-> \A i \in DOMAIN e.samples :
                 LET s == e.samples[i] IN
                 Near(s[3], FieldExponent(e.fun, e.args, s[1], e.T, s[2], e.P, e.unit), e.tol),
              transform |-> e.outcome = "ok" => SameC(e.got, e.want, e.tol) ]
      [] e.kind = "extra" ->
            (* parameters times their denominators *)
            LET setting == Setting(e.fun, e.extra) IN
            [ computed |-> e.outcome = "ok",
              parameters |-> e.outcome = "ok" =>
                 /\ DOMAIN e.set = DOMAIN setting
                 /\ \A k \in DOMAIN setting : e.set[k] = <<setting[k][1], setting[k][2]>>,
              same_function |-> e.outcome = "ok" => e.same,
              same_name |-> e.outcome = "ok" => e.name = e.keyword_name ]
      [] e.kind = "default" ->
            LET given == [k \in {e.given[i][1] : i \in DOMAIN e.given} |->
                    F(e.given[CHOOSE i \in DOMAIN e.given : e.given[i][1] = k][2], 1)]
                want == Effective(e.fun, given)
            IN [ computed |-> e.outcome = "ok",
                 parameters |-> e.outcome = "ok" =>
                    /\ DOMAIN e.set = DOMAIN want
                    /\ \A k \in DOMAIN want : e.set[k] = <<want[k][1], want[k][2]>>,
                 same_function |-> e.outcome = "ok" => e.same,
                 same_name |-> e.outcome = "ok" => e.name = e.explicit_name ]
      [] e.kind = "selected" ->
            [ computed |-> e.outcome = "ok",
              length |-> e.outcome = "ok" => Len(e.got) = e.n,
              unit |-> e.outcome = "ok" => \A i \in DOMAIN e.got :
                 CClose(e.got[i], Unit(i, e.n, e.rank + 1, e.scale), e.tol) ]
      [] e.kind = "ones" ->
            [ computed |-> e.outcome = "ok",
              ones |-> e.outcome = "ok" => /\ Len(e.got) = e.L * e.L
                       /\ \A i \in DOMAIN e.got : e.got[i] = <<e.scale, 0>> ]
      [] e.kind = "slepian_delta" ->
            (* at a sample where the real part of the first function is greatest *)
            LET top == CHOOSE i \in DOMAIN e.first :
                          \A j \in DOMAIN e.first : e.first[j] <= e.first[i]
                highest == {i \in DOMAIN e.first : e.first[i] + e.tol >= e.first[top]}
            IN [ computed |-> e.outcome = "ok",
                 length |-> e.outcome = "ok" => Len(e.got) = e.L * e.L,
                 values |-> e.outcome = "ok" => \E i \in highest :
                    \A p \in DOMAIN e.functions :
                       CClose(e.got[p], CConj(e.functions[p][i]), e.tol),
                 rest |-> e.outcome = "ok" => \A p \in DOMAIN e.got :
                    p > Len(e.functions) => CClose(e.got[p], CZero, e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
