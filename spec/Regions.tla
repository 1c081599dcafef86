------------------------------ MODULE Regions ------------------------------
(* How parameters identify a region.  Angles are thousandths of a degree.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

South == 180000
Round == 360000
InRange(r) == /\ r.theta_min \in 0..South /\ r.theta_max \in 0..South
              /\ r.phi_min \in 0..Round /\ r.phi_max \in 0..Round
AllAround(r) == r.phi_min = 0 /\ r.phi_max = Round
Narrowed(r) == r.theta_min # 0 \/ r.theta_max # South \/ ~AllAround(r)
Type(r) == IF ~InRange(r) THEN "rejected"
           ELSE IF AllAround(r) /\ r.theta_min = 0 /\ r.theta_max # South THEN "polar"
           ELSE IF Narrowed(r) THEN "lim_lat_lon"
           ELSE IF r.mask # "" THEN "arbitrary"
           ELSE "rejected"
(* the parameters which make a difference to the region *)
Key(r) == CASE Type(r) = "polar" -> <<"polar", r.gap, r.theta_max>>
            [] Type(r) = "lim_lat_lon" ->
                 <<"box", r.theta_min, r.theta_max, r.phi_min, r.phi_max>>
            [] Type(r) = "arbitrary" -> <<"mask", r.mask>>
            [] OTHER -> <<"none">>
Whole(r) == /\ r.theta_min % 1000 = 0 /\ r.theta_max % 1000 = 0
            /\ r.phi_min % 1000 = 0 /\ r.phi_max % 1000 = 0
(* the environment: a variable which is not set has its default *)
Unset == 9000000
Or(v, d) == IF v = Unset THEN d ELSE v
FromEnv(e) == [theta_min |-> Or(e.theta_min, 0), theta_max |-> Or(e.theta_max, South),
               phi_min |-> Or(e.phi_min, 0), phi_max |-> Or(e.phi_max, Round),
               gap |-> e.gap \in {"true", "True", "TRUE"},
               mask |-> IF e.mask = "unset" THEN "south_america" ELSE e.mask]
=============================================================================
