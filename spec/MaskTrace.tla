------------------------------ MODULE MaskTrace ------------------------------
(* Masks, masked signals and mesh regions of the package against Masks.       *)
EXTENDS Masks, Num, TraceLog

VARIABLES l, bad
tvars == <<l, bad>>

Shape(e) == Len(e.mask) = e.L + 1 /\ \A i \in DOMAIN e.mask : Len(e.mask[i]) = 2 * e.L
At(e, i, j) == e.mask[i + 1][j + 1]
(* the mirrored limit of a gap is not decided when rounding decides it *)
Decided(e, i) == ~(e.r.gap /\ 2 * i = 2 * e.L - e.r.tmax /\ ~e.mirror_exact)
Marks(e) == \A c \in Cells(e.L) :
    Decided(e, c[1]) => (At(e, c[1], c[2]) = 1 <=> Inside(e.L, e.r, c[1], c[2]))
AllClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], tol)
Clauses(e) ==
    IF e.outcome # "ok" THEN [as_expected |-> e.rejected]
    ELSE IF Has(e, "rejected") /\ e.rejected THEN [wrong_shape_rejected |-> FALSE]
    ELSE
    CASE e.kind = "mask" -> [shape |-> Shape(e), marks_inside |-> Shape(e) => Marks(e)]
      [] e.kind = "saved" -> [as_it_is |-> e.got = e.want]
      [] e.kind = "masked" ->
            [ inside_kept |-> AllClose(e.got, e.want, e.tol),
              partition |-> AllClose(e.whole, e.given, e.tol) ]
      [] e.kind = "plot" ->
            [ hides_outside |-> \A i \in DOMAIN e.marks : \A j \in DOMAIN e.marks[i] :
                   e.shown[i][j] = IF e.marks[i][j] = 1 THEN e.field[i][j]
                                   ELSE e.unseen ]
      [] e.kind = "mesh_box" ->
            [ vertices_inside |-> /\ Len(e.region) = Len(e.vertices)
                                  /\ \A v \in DOMAIN e.vertices :
                                        e.region[v] = 1 <=> InBox(e.vertices[v], e.box) ]
      [] e.kind = "mesh_faces" ->
            [ faces_inside |-> /\ Len(e.on_faces) = Len(e.faces)
                               /\ \A f \in DOMAIN e.faces :
                                     e.on_faces[f] = IF FaceIn(e.faces[f], ToSet(e.inside)) THEN 1 ELSE 0,
              faces_shown |-> Has(e, "shown") => \A f \in DOMAIN e.faces :
                    e.shown[f] = IF FaceIn(e.faces[f], ToSet(e.inside)) THEN e.f[f]
                                 ELSE e.unseen ]
      [] e.kind = "mesh_masked" ->
            [ inside_kept |-> AllClose(e.got, e.want, e.tol),
              partition |-> AllClose(e.whole, e.given, e.tol) ]
      [] OTHER -> [known_event |-> FALSE]

TraceInit == l = 1 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
