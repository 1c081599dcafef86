---------------------------- MODULE MeshPlotCases ----------------------------
(* Drawing a mesh as a machine, for every small field and region, and the      *)
(* command lines.                                                              *)
EXTENDS MeshPlot, CaseLog
CONSTANTS HideFirst, AnyVertex, Emitting

Faces == << <<1, 2, 3>>, <<2, 4, 3>>, <<3, 4, 1>> >>
Scale == 1000
Unseen == -1000000
VARIABLES f, mask, norm, amplitude, m, top, pc, o
vars == <<f, mask, norm, amplitude, m, top, pc, o>>
Line == [space : {"harmonic", "slepian"}, method : {"basis", "field", "noise", "wavelets"},
         noise : {<<>>, <<-5>>, <<0>>}, region : BOOLEAN, unnormalise : BOOLEAN,
         zoom : BOOLEAN, extra : BOOLEAN]
Lines == {x \in Line : x.method = "wavelets" => x.space = "slepian"}
None == [space |-> "none"]
Init == \/ /\ f \in [1..4 -> {-2, 0, 1}] /\ mask \in [1..4 -> BOOLEAN]
           /\ norm \in BOOLEAN /\ amplitude \in {<<>>, <<5>>}
           /\ m = <<>> /\ top = 0 /\ pc = "vertices" /\ o = None
        \/ /\ o \in Lines /\ pc = "mesh" /\ m = <<>> /\ top = 0
           /\ f = <<>> /\ mask = <<>> /\ norm = ~o.unnormalise /\ amplitude = <<>>
Same == UNCHANGED <<f, mask, norm, amplitude, o>>
Inside == [n \in DOMAIN Faces |-> IF AnyVertex THEN \E k \in 1..3 : mask[Faces[n][k]]
                                  ELSE \A k \in 1..3 : mask[Faces[n][k]]]
Average == /\ pc = "vertices" /\ pc' = "faces" /\ m' = <<OnFaces(Faces, f)>>
           /\ top' = (IF norm THEN Scale ELSE Scale * Largest(f, amplitude))
           /\ Same
Shade == /\ pc = "faces" /\ pc' = "shaded"
         /\ m' = Shaded(IF HideFirst THEN Hide(m, <<Inside>>, Unseen) ELSE m, norm, Scale)
         /\ UNCHANGED top /\ Same
Mask == pc = "shaded" /\ pc' = "drawn" /\ UNCHANGED top /\ Same
        /\ m' = Hide(m, <<Inside>>, Unseen)
(* the command passes through its stages *)
Stage == \E i \in 1..4 : pc = Stages[i] /\ pc' = Stages[i + 1]
            /\ UNCHANGED <<f, mask, norm, amplitude, m, top, o>>
Next == Average \/ Shade \/ Mask \/ Stage
Spec == Init /\ [][Next]_vars

Drawn == pc = "drawn"
AsDeclared == Drawn => m = <<MeshFigure(Faces, f, mask, norm, Scale, Unseen)>>
InRange == Drawn => \A n \in DOMAIN Faces :
    m[1][n] = Unseen \/ (IF norm THEN m[1][n] \in 0..Scale
                         ELSE amplitude = <<>> => Abs(m[1][n]) <= 3 * top)
OutsideHidden == Drawn => \A n \in DOMAIN Faces :
    (m[1][n] = Unseen) <=> \E k \in 1..3 : ~mask[Faces[n][k]]
Monotone == Drawn => \A a, b \in DOMAIN Faces :
    m[1][a] # Unseen /\ m[1][b] # Unseen /\ OnFaces(Faces, f)[a] <= OnFaces(Faces, f)[b]
        => m[1][a] <= m[1][b]
(* what is hidden does not change the colours of the others *)
Independent == Drawn => \A n \in DOMAIN Faces : m[1][n] # Unseen =>
    m[1][n] = MeshFigure(Faces, f, [i \in 1..4 |-> TRUE], norm, Scale, Unseen)[n]
Emit == Emitting => (/\ Drawn => EmitCase([kind |-> "draw", f |-> f, mask |-> mask,
                                           norm |-> norm, amplitude |-> amplitude,
                                           faces |-> Faces])
                     /\ pc = "figure" => EmitCase([kind |-> "line", o |-> o]))
=============================================================================
