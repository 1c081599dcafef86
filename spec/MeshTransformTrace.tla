-------------------------- MODULE MeshTransformTrace --------------------------
(* Transforms and functions of meshes, as computed.  Values of the first kinds *)
(* are exact whole numbers of the unit of the result.                          *)
EXTENDS MeshTransforms, TraceLog
VARIABLES l, bad
tvars == <<l, bad>>

Near(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN b : Close(a[i], b[i], tol)
Given(e) == {e.given[i] : i \in DOMAIN e.given}
Clauses(e) ==
    CASE e.outcome = "malformed" -> [decided |-> FALSE]
      [] e.kind = "coefficients" ->
            LET method == Method(Given(e))
            IN IF method = "none" \/ e.n > Len(e.w)
               THEN [ rejected |-> e.outcome = "error" ]
               ELSE [ accepted |-> e.outcome = "ok",
                      coefficients |-> e.outcome = "ok" =>
                        e.got = SlepianForward(method, e.basis, e.w, e.inv, e.mask, e.u, e.c,
                                               IF e.n < 0 THEN e.number ELSE e.n),
                      kept |-> e.kept ]
      [] e.kind = "rank" ->
            IF e.rank < 0 \/ e.rank >= Len(e.w) THEN [ rejected |-> e.outcome = "error" ]
            ELSE [ accepted |-> e.outcome = "ok",
                   coefficient |-> e.outcome = "ok" => e.got = Coefficient(Method(Given(e)),
                        e.basis, e.w, e.inv, e.mask, e.u, e.c, e.rank + 1) ]
      [] e.outcome # "ok" -> [computed |-> FALSE]
      [] e.kind = "forward" -> [ forward |-> e.got = Forward(e.basis, e.u), kept |-> e.kept ]
      [] e.kind = "inverse" -> [ inverse |-> e.got = Inverse(e.basis, e.c), kept |-> e.kept ]
      [] e.kind = "slepian_inverse" ->
            [ inverse |-> e.got = SlepianInverse(e.basis, e.w, e.f, e.number),
              kept |-> e.kept ]
      [] e.kind = "faces" ->
            [ means |-> e.got = IF e.one THEN OnFaces(e.faces, e.u[1])
                                ELSE [i \in DOMAIN e.u |-> OnFaces(e.faces, e.u[i])],
              kept |-> e.kept ]
      [] e.kind = "same" -> [ same |-> Near(e.got, e.want, e.tol) ]
      [] e.kind = "unit" ->
            [ selected |-> Near(e.got, [i \in 1..e.n |-> IF i = e.rank + 1 THEN e.one ELSE 0],
                                e.tol) ]
      [] e.kind = "wavelet" ->
            (* the selected row of all wavelets *)
            LET row == e.sets[(IF e.j < 0 THEN 0 ELSE e.j + 1) + 1]
            IN [ selected |-> Near(e.got, row, e.tol) ]
      [] e.kind = "normals" ->
            (* coefficients of the second component of the normals *)
            [ field |-> Near(e.got, e.want, e.tol) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
