------------------------------ MODULE Definitions ------------------------------
(* Definitions of the functions on the sphere, by their coefficients, and the *)
(* arguments of the command line.  Arguments are fractions <<num, den>>.      *)
EXTENDS Num

F(n, d) == <<n, d>>
(* Parameters set by the extra arguments of the command line, in their order; *)
(* those with `power` are the powers of ten of the arguments.                 *)
Table == [
    gaussian |-> [parameters |-> <<"sigma">>, power |-> TRUE],
    elongated_gaussian |-> [parameters |-> <<"t_sigma", "p_sigma">>, power |-> TRUE],
    squashed_gaussian |-> [parameters |-> <<"t_sigma", "freq">>, power |-> TRUE],
    harmonic_gaussian |-> [parameters |-> <<"l_sigma", "m_sigma">>, power |-> TRUE],
    spherical_harmonic |-> [parameters |-> <<"ell", "m">>, power |-> FALSE],
    noise_earth |-> [parameters |-> <<"SNR">>, power |-> FALSE],
    slepian_noise_africa |-> [parameters |-> <<"SNR">>, power |-> FALSE],
    slepian_noise_south_america |-> [parameters |-> <<"SNR">>, power |-> FALSE],
    slepian |-> [parameters |-> <<"rank">>, power |-> FALSE],
    axisymmetric_wavelets |-> [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    axisymmetric_wavelet_coefficients_africa |->
        [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    axisymmetric_wavelet_coefficients_earth |->
        [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    axisymmetric_wavelet_coefficients_south_america |->
        [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    slepian_wavelets |-> [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    slepian_wavelet_coefficients_africa |->
        [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    slepian_wavelet_coefficients_south_america |->
        [parameters |-> <<"B", "j_min", "j">>, power |-> FALSE],
    ridgelets |-> [parameters |-> <<"B", "j_min", "spin", "j">>, power |-> FALSE] ]
(* Functions of a mesh, of which only the parameters are specified here. *)
Scale == <<"B", "j_min", "j">>
OnMeshes == [
    mesh_basis_functions |-> <<"rank">>, mesh_slepian_functions |-> <<"rank">>,
    mesh_noise_field |-> <<"SNR">>, mesh_slepian_noise_field |-> <<"SNR">>,
    mesh_slepian_wavelets |-> Scale, mesh_slepian_wavelet_coefficients |-> Scale ]
Everything == DOMAIN Table \cup DOMAIN OnMeshes
Names(fun) == IF fun \in DOMAIN Table THEN Table[fun].parameters ELSE OnMeshes[fun]
Named(fun) == {Names(fun)[i] : i \in DOMAIN Names(fun)}
(* the defaults: no scale is the scaling function *)
NoScale == <<1000, 1>>
Default(fun, k) ==
    CASE k = "B" -> F(3, 1)
      [] k = "j_min" -> F(2, 1)
      [] k = "j" -> NoScale
      [] k \in {"rank", "ell", "m"} -> F(0, 1)
      [] k = "spin" -> F(2, 1)
      [] k \in {"sigma", "l_sigma", "m_sigma"} -> F(10, 1)
      [] k = "t_sigma" -> F(1, 1)
      [] k \in {"p_sigma", "freq"} -> F(1, 10)
      [] k = "SNR" -> IF fun \in {"noise_earth", "mesh_noise_field"} THEN F(10, 1)
                      ELSE IF fun = "mesh_slepian_noise_field" THEN F(-5, 1) ELSE F(-10, 1)
(* whatever is not given has its default *)
Effective(fun, given) == [k \in Named(fun) |->
    IF k \in DOMAIN given THEN given[k] ELSE Default(fun, k)]
Plain == {"africa", "dirac_delta", "earth", "identity", "slepian_africa",
          "slepian_dirac_delta", "slepian_identity", "slepian_south_america",
          "south_america", "wmap"}
Parameter(fun, x) == IF ~Table[fun].power THEN F(x, 1)
                     ELSE IF x >= 0 THEN F(Pow(10, x), 1) ELSE F(1, Pow(10, -x))
Setting(fun, extra) == [k \in {Table[fun].parameters[i] : i \in DOMAIN extra} |->
    Parameter(fun, extra[CHOOSE i \in DOMAIN extra : Table[fun].parameters[i] = k])]

Supported(fun, a, l, m) == CASE fun = "dirac_delta" -> m = 0
                             [] fun = "gaussian" -> m = 0
                             [] fun = "spherical_harmonic" -> l = a[1][1] /\ m = a[2][1]
                             [] OTHER -> TRUE
(* minus twice the logarithm of a coefficient, in units of 1/unit *)
Over(n, x, unit) == (n * x[2] * x[2] * unit) \div (x[1] * x[1])
Exponent(fun, a, l, m, unit) ==
    CASE fun = "gaussian" -> Over(l * (l + 1), a[1], unit)
      [] fun = "harmonic_gaussian" -> Over(l * l, a[1], unit) + Over(m * m, a[2], unit)
      [] OTHER -> 0
(* 4 pi times the square of a coefficient of the Dirac delta *)
DeltaSquare(l) == 2 * l + 1
(* A field of the grid at a sample of colatitude t / T pi and longitude       *)
(* p / P pi: minus twice the logarithm over pi squared, without the sine.     *)
FieldExponent(fun, a, t, T, p, P, unit) ==
    LET colatitude == (t * t * a[1][2] * a[1][2] * unit) \div (T * T * a[1][1] * a[1][1])
        longitude == ((p - P) * (p - P) * a[2][2] * a[2][2] * unit)
                        \div (P * P * a[2][1] * a[2][1])
    IN IF fun = "elongated_gaussian" THEN colatitude + longitude ELSE colatitude
=============================================================================
