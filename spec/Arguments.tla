------------------------------ MODULE Arguments ------------------------------
(* Which arguments the functions accept.  A construction is a record of the   *)
(* function, its arguments in the order of the command line, whether these    *)
(* are whole, the bandlimit L (or, for a mesh, the number of its basis        *)
(* functions), the Shannon number N, and the region.                          *)
EXTENDS Num

None == 1000  \* an argument which is left out
Absent == 1001  \* a list of arguments which is left out
Rank == {"slepian", "mesh_basis_functions", "mesh_slepian_functions"}
Ratio == {"noise_earth", "slepian_noise_africa", "slepian_noise_south_america",
          "mesh_noise_field", "mesh_slepian_noise_field"}
Scales == {"axisymmetric_wavelets", "axisymmetric_wavelet_coefficients_africa",
           "axisymmetric_wavelet_coefficients_earth",
           "axisymmetric_wavelet_coefficients_south_america", "slepian_wavelets",
           "slepian_wavelet_coefficients_africa",
           "slepian_wavelet_coefficients_south_america", "mesh_slepian_wavelets",
           "mesh_slepian_wavelet_coefficients"}
Two == {"elongated_gaussian", "squashed_gaussian", "harmonic_gaussian"}
Without == {"africa", "dirac_delta", "earth", "identity", "slepian_africa",
            "slepian_dirac_delta", "slepian_identity", "slepian_south_america",
            "south_america", "wmap", "mesh_field", "mesh_slepian_field"}
Functions == Rank \cup Ratio \cup Scales \cup Two \cup Without
               \cup {"gaussian", "spherical_harmonic", "ridgelets"}
InAfrica == {"slepian_africa", "slepian_noise_africa",
             "slepian_wavelet_coefficients_africa"}
InAmerica == {"slepian_south_america", "slepian_noise_south_america",
              "slepian_wavelet_coefficients_south_america"}
OnRegion == InAfrica \cup InAmerica \cup
            {"slepian", "slepian_dirac_delta", "slepian_identity", "slepian_wavelets"}
OnMesh == {"mesh_basis_functions", "mesh_noise_field", "mesh_field",
           "mesh_slepian_functions", "mesh_slepian_noise_field", "mesh_slepian_wavelets",
           "mesh_slepian_wavelet_coefficients", "mesh_slepian_field"}
Arity(f) == CASE f \in Without -> 0
              [] f \in Rank \cup Ratio \cup {"gaussian"} -> 1
              [] f \in Two \cup {"spherical_harmonic"} -> 2
              [] f \in Scales -> 3
              [] OTHER -> 4
(* the largest scale for bands of powers of B up to n *)
RECURSIVE Largest(_, _)
Largest(B, n) == IF n <= 1 THEN 0 ELSE 1 + Largest(B, (n + B - 1) \div B)
Size(c) == IF c.fun \in OnRegion THEN c.L * c.L ELSE c.L

RegionFits(c) == CASE c.fun \in InAfrica -> c.region = "africa"
                   [] c.fun \in InAmerica -> c.region = "south_america"
                   [] OTHER -> TRUE
ScaleFits(c, B, first, j) ==
    /\ B >= 2 /\ first >= 0
    /\ first <= Largest(B, Size(c))
    /\ j # None => j >= 0 /\ j <= Largest(B, Size(c)) - first
(* the arguments fit, where their number is right *)
Fits(c) == LET a == c.args IN
    CASE c.fun = "mesh_basis_functions" -> a[1] >= 0 /\ a[1] < c.L
      [] c.fun \in Rank -> a[1] >= 0 /\ a[1] < c.N
      [] c.fun \in Scales -> ScaleFits(c, a[1], a[2], a[3])
      [] c.fun = "ridgelets" -> ScaleFits(c, a[1], a[2], a[4])
      [] c.fun = "spherical_harmonic" -> a[1] >= 0 /\ a[1] < c.L /\ Abs(a[2]) <= a[1]
      [] OTHER -> TRUE
(* What the specification leaves open: one minimum scale beyond the largest,  *)
(* with the scaling function alone; spins without any degree; scales beyond   *)
(* the Slepian functions of the region, which have no coefficients.           *)
Begin(B, J) == IF J <= 0 THEN 1 ELSE IF J = 1 THEN 2 ELSE Pow(B, J - 1) + 1
Open(c) == Len(c.args) = Arity(c.fun) /\ LET a == c.args IN
    \/ c.fun \in Scales \cup {"ridgelets"} /\ a[1] >= 2 /\ a[2] > Largest(a[1], Size(c))
    \/ c.fun = "ridgelets" /\ Abs(a[3]) >= c.L
    \/ /\ c.fun \in {"slepian_wavelet_coefficients_africa", "slepian_wavelet_coefficients_south_america",
                     "mesh_slepian_wavelet_coefficients"}
       /\ Fits(c) /\ RegionFits(c) /\ a[3] # None /\ Begin(a[1], a[2] + a[3]) >= c.N - 1
Right(c) == IF c.given THEN Arity(c.fun) > 0 /\ Len(c.args) = Arity(c.fun) /\ Fits(c)
            ELSE TRUE
Accepted(c) == RegionFits(c) /\ c.whole /\ Right(c)
Expected(c) == IF c.whole /\ RegionFits(c) /\ c.given /\ Open(c) THEN "either"
               ELSE IF Accepted(c) THEN "accepted" ELSE "rejected"

(* Polar caps by their order, and all regions by their angles in degrees *)
OrderFits(L, m) == Abs(m) < L
AngleFits(a) == /\ a.theta_min \in 0..180 /\ a.theta_max \in 0..180
                /\ a.phi_min \in 0..360 /\ a.phi_max \in 0..360
(* not the whole sphere: without a restriction there has to be a mask *)
Restricted(a) == a.theta_min # 0 \/ a.theta_max # 180 \/ a.phi_min # 0 \/ a.phi_max # 360
=============================================================================
