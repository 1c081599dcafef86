------------------------------- MODULE MeshPlot -------------------------------
(* The figure of a field on the vertices of a mesh, and the command which      *)
(* makes it.  The value of a face is the mean of its three vertices, kept as   *)
(* their sum; a face belongs to the region if all of its vertices do.          *)
EXTENDS SpherePlot, TLC

OnFaces(faces, f) == [n \in DOMAIN faces |-> f[faces[n][1]] + f[faces[n][2]] + f[faces[n][3]]]
FacesInside(faces, mask) == [n \in DOMAIN faces |-> \A k \in 1..3 : mask[faces[n][k]]]
(* colours of the faces: sums of three values, or fractions of the scale *)
MeshFigure(faces, f, mask, norm, scale, hidden) ==
    Hide(Shaded(<<OnFaces(faces, f)>>, norm, scale), <<FacesInside(faces, mask)>>, hidden)[1]
(* the largest colour of a figure which is not normalised *)
Largest(f, amplitude) ==
    IF amplitude # <<>> THEN amplitude[1]
    ELSE LET m == <<f>> IN Max2(Abs(Least(m)), Abs(Most(m)))

(* a command line o: the mesh, a function and flags *)
Slepian(o) == o.space = "slepian"
Stages == <<"mesh", "function", "noise", "field", "figure">>
Hidden(o) == Slepian(o)                       \* the faces outside of the region
Amplitude(o) == o.noise # <<>>                \* that of the field without noise
Noise(x) == "_" \o (IF x < 0 THEN "-" ELSE "") \o ToString(Abs(x)) \o "noise"
(* base is the name of the function alone *)
Name(o, base) == base \o (IF o.region THEN "_region" ELSE "")
                      \o (IF o.noise # <<>> THEN Noise(o.noise[1]) ELSE "")
                      \o (IF o.zoom THEN "_zoom" ELSE "")
                      \o (IF o.unnormalise THEN "" ELSE "_norm")
(* what the view takes from the configuration of the mesh, of scale 1000 *)
Zoom(o, c) == IF o.zoom THEN c.region_zoom ELSE c.default_zoom
Eye(o, c) == [d \in 1..3 |-> (c.camera[d] * 1000) \div Zoom(o, c)]
Centre(o, c) == IF o.zoom THEN c.centre ELSE <<0, 0, 0>>
Bar(o, c) == IF o.zoom THEN c.region_bar ELSE c.default_bar
(* vertices are drawn with the second axis upwards *)
Upright(v) == <<v[1], v[3], v[2]>>
=============================================================================
