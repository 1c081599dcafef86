----------------------------- MODULE RegionCases -----------------------------
(* Every combination of parameters, chosen one after the other.               *)
EXTENDS Regions
CONSTANTS Thetas, Phis, Gaps, Masks, Kind

VARIABLES r, n
vars == <<r, n>>
Fields == <<"theta_min", "theta_max", "phi_min", "phi_max", "gap", "mask">>
(* constants of TLC are not negative *)
Down(S) == {v - 2000 : v \in S}
Range(f) == CASE f \in {"theta_min", "theta_max"} -> Down(Thetas)
              [] f \in {"phi_min", "phi_max"} -> Down(Phis)
              [] f = "gap" -> Gaps
              [] OTHER -> Masks
Init == r = <<>> /\ n = 0
Next == /\ n < Len(Fields)
        /\ n' = n + 1
        /\ \E v \in Range(Fields[n']) : r' = (Fields[n'] :> v) @@ r
Spec == Init /\ [][Next]_vars

Done == n = Len(Fields)
Reg == IF Kind = "env" THEN FromEnv(r) ELSE r
(* exactly one outcome, irrelevant parameters do not matter *)
Total == Done => Type(Reg) \in {"polar", "lim_lat_lon", "arbitrary", "rejected"}
GapOnlyPolar == Done /\ Type(Reg) # "polar" =>
    \A g \in BOOLEAN : Key([Reg EXCEPT !.gap = g]) = Key(Reg)
MaskLast == Done /\ Type(Reg) \in {"polar", "lim_lat_lon"} =>
    Key([Reg EXCEPT !.mask = "other"]) = Key(Reg)
NothingSet == Done /\ Kind = "env" /\ r.mask = "unset"
    /\ {r.theta_min, r.theta_max, r.phi_min, r.phi_max} = {Unset} =>
        Key(Reg) = <<"mask", "south_america">>
OutsideRejected == Done /\ ~InRange(Reg) => Type(Reg) = "rejected"
Emit == Done =>
    Serialize(ToJson(r) \o "\n", IOEnv.CASES,
        [format |-> "TXT", charset |-> "UTF-8",
         openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
