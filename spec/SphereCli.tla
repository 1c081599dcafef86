------------------------------ MODULE SphereCli ------------------------------
(* The command which plots a function on the sphere.  A command line is a     *)
(* record of its options; fractions of pi are records of a numerator and a    *)
(* denominator.  The command builds the function, moves it, convolves it,     *)
(* turns the Earth towards the viewer, and plots.                             *)
EXTENDS Num, TLC

Slepian(o) == o.kind \in {"slepian", "slepian_delta"}
Delta(o) == o.kind \in {"delta", "slepian_delta"}
OfEarth(o) == o.kind = "earth" \/ o.conv = "earth"
Refused(o) == Slepian(o) /\ o.method = "rotate"

Moves(o) == CASE o.method = "rotate" -> <<"rotate">>
              [] o.method = "translate" ->
                    <<IF Delta(o) THEN "delta" ELSE "translate">>
              [] OTHER -> <<>>
Convolutions(o) == IF o.conv = "none" THEN <<>> ELSE <<"convolve">>
(* the view of the Earth is turned in harmonic space only *)
Views(o) == IF ~OfEarth(o) \/ Slepian(o) THEN <<>>
            ELSE IF o.view = "africa" THEN <<"to_africa">> ELSE <<"to_south_america">>
Ops(o) == Moves(o) \o Convolutions(o) \o Views(o)

Pi(f) == ToString(f.num) \o "pi" \o (IF f.den = 1 THEN "" ELSE ToString(f.den))
Angle(label, f) == label \o (IF f.num = 0 THEN "0" ELSE Pi(f))
(* the angle of the last turn is only named if there is one *)
Angles(o) == Angle("alpha", o.alpha) \o "_" \o Angle("beta", o.beta)
             \o (IF o.method = "rotate" /\ o.gamma.num # 0
                 THEN "_" \o Angle("gamma", o.gamma) ELSE "")
(* the bandlimit at which fields are shown *)
Resolution(L) == LET e == CASE L < 2 -> 6 [] L < 4 -> 5 [] L < 8 -> 4 [] L < 128 -> 3
                            [] L < 512 -> 2 [] L < 1024 -> 1 [] OTHER -> 0
                 IN L * Pow(2, e)
Shown(o, L) == IF o.unzeropad THEN L ELSE Resolution(L)
Suffix(o, g, L) ==
    (IF o.method = "north" THEN "" ELSE "_" \o o.method \o "_" \o Angles(o))
    \o (IF o.conv = "none" THEN "" ELSE "_convolved_" \o g)
    \o (IF "to_africa" \in {Ops(o)[i] : i \in DOMAIN Ops(o)} THEN "_africa" ELSE "")
    \o (IF o.unzeropad THEN "" ELSE "_res" \o ToString(Resolution(L)))
    \o "_" \o o.part \o (IF o.unnormalise THEN "" ELSE "_norm")
Annotated(o) == o.method = "translate" /\ o.outline

(* one sample of the field: <<real part, imaginary part, absolute value>> *)
Part(o, v) == CASE o.part = "real" -> v[1] [] o.part = "imag" -> v[2]
                [] o.part = "abs" -> v[3] [] OTHER -> v[1] + v[2]
(* its colour between the extremes of the field, up to a scale *)
Colour(o, v, lo, hi, scale) == IF o.unnormalise THEN Part(o, v)
                               ELSE ((Part(o, v) - lo) * scale) \div (hi - lo)
=============================================================================
