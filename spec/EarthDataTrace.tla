--------------------------- MODULE EarthDataTrace ---------------------------
(* Recorded coefficients of the Earth, the background and the continents.     *)
EXTENDS EarthData, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

SameC(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : CClose(a[i], b[i], tol)
Ok(e) == e.outcome = "ok"
Over(x, unit) == IF x < 0 THEN -((-x) \div unit) ELSE x \div unit
COver(z, unit) == <<Over(z[1], unit), Over(z[2], unit)>>
(* weights of the degrees in units of 1/unit *)
Weighed(p, L, w, unit) == LET c == Earth(p, L, w)
                          IN [i \in DOMAIN c |-> COver(c[i], unit)]
(* coefficients of a masked field, from those of each sample *)
OfField(e) == LET f == Kept(e.mask, e.field)
              IN [i \in 1..e.L * e.L |->
                    COver(FoldLeft(CAdd, CZero, [k \in DOMAIN f |-> CScale(f[k], e.parts[k][i])]), e.unit)]
Rightly(e, k) == \/ Abs(e.plain[k]) <= e.near
                 \/ e.mask[k] = Ashore(e.name, e.angles[k], e.plain[k])
Clauses(e) ==
    CASE e.kind = "earth" ->
            [ computed |-> Ok(e),
              declared |-> Ok(e) => SameC(e.got, Earth(e.p, e.L, [i \in 1..e.L |-> 1]), 0),
              real |-> Ok(e) => Symmetric(e.got, 0) ]
      [] e.kind = "smoothed" ->
            [ computed |-> Ok(e),
              declared |-> Ok(e) => SameC(e.got, Weighed(e.p, e.L, e.w, e.unit), e.tol),
              real |-> Ok(e) => Symmetric(e.got, 1) ]
      [] e.kind = "sky" ->
            [ computed |-> Ok(e),
              size |-> Ok(e) => Len(e.got) = e.L * e.L,
              low |-> Ok(e) => \A i \in 1..Min2(4, Len(e.got)) : e.got[i] = CZero,
              real |-> Ok(e) => Symmetric(e.got, 1),
              again |-> Ok(e) => e.again = e.got,
              prefix |-> Ok(e) => SameC(SubSeq(e.more, 1, e.L * e.L), e.got, 1) ]
      [] e.kind = "realisation" ->
            (* unit numbers z, those of orders other than zero over the root of 2 *)
            [ computed |-> Ok(e),
              fixed |-> Ok(e) => LET c == Background(e.s, e.z, e.L)
                  IN SameC(e.got, [i \in DOMAIN c |-> COver(c[i], e.unit)], e.tol) ]
      [] e.kind = "spectrum" ->
            (* the published value of one degree times factor^2 *)
            [ computed |-> Ok(e),
              follows |-> Ok(e) => \A i \in DOMAIN e.got :
                 CClose(e.got[i], CScale(IF EllOf(i - 1) = e.degree THEN e.factor ELSE 1,
                                         e.plain[i]), e.tol * e.factor) ]
      [] e.kind = "level" ->
            (* mean squares over those which the spectrum gives, in thousandths *)
            [ computed |-> Ok(e),
              variance |-> Ok(e) => \A i \in DOMAIN e.power : Close(e.power[i], 1000, e.slack[i]) ]
      [] e.kind = "continent" ->
            [ computed |-> Ok(e),
              mask |-> Ok(e) => (e.given \/ \A k \in DOMAIN e.mask : Rightly(e, k)),
              field |-> (Ok(e) /\ e.op = "function") => SameC(e.got, OfField(e), e.tol) ]
      [] e.kind = "masks" ->
            [ computed |-> Ok(e),
              same |-> Ok(e) => \A i, j \in DOMAIN e.masks :
                 e.keys[i] = e.keys[j] => e.masks[i] = e.masks[j] ]
      [] e.kind = "slepian" ->
            [ computed |-> Ok(e),
              number |-> Ok(e) => Len(e.got) = e.N,
              projected |-> Ok(e) => SameC(e.got,
                 [k \in 1..e.N |-> COver(FoldLeft(CAdd, CZero, [i \in DOMAIN e.land |->
                     CMul(CConj(e.basis[k][i]), e.land[i])]), e.unit)], e.tol) ]
      [] e.kind = "refused" -> [ refused |-> e.outcome = "error" ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
