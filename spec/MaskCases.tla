------------------------------ MODULE MaskCases ------------------------------
(* All regions of a bandlimit in half steps, and what a mask guarantees.      *)
EXTENDS Masks, TLC, Json, IOUtils
CONSTANTS Ls

VARIABLES L, r
vars == <<L, r>>
Polars(n) == {[type |-> "polar", tmin |-> 0, tmax |-> t, pmin |-> 0, pmax |-> 4 * n,
               gap |-> g] : t \in 1..2 * n - 1, g \in BOOLEAN}
Boxes(n) == {b \in {[type |-> "lim_lat_lon", tmin |-> t, tmax |-> u, pmin |-> p,
                     pmax |-> q, gap |-> FALSE] :
                    t \in 0..2 * n, u \in 0..2 * n, p \in 0..4 * n, q \in 0..4 * n} :
                 /\ b.tmin <= b.tmax /\ b.pmin <= b.pmax
                 /\ ~(b.pmin = 0 /\ b.pmax = 4 * n /\ b.tmin = 0)}
None == [type |-> "none", tmin |-> 0, tmax |-> 0, pmin |-> 0, pmax |-> 0, gap |-> FALSE]
Init == L \in Ls /\ r = None
Next == r = None /\ r' \in Polars(L) \cup Boxes(L) /\ UNCHANGED L
Spec == Init /\ [][Next]_vars

Grow(x) == [x EXCEPT !.tmax = @ + 1]
(* a larger region marks no fewer samples *)
Monotone == Mask(L, r) \subseteq Mask(L, Grow(r))
(* a cap of more than half of the sphere and its mirror cover everything *)
GapCovers == r.type = "polar" /\ r.gap /\ r.tmax >= L => Mask(L, r) = Cells(L)
GapMirrored == r.type = "polar" /\ r.gap =>
    \A c \in Cells(L) : c \in Mask(L, r) <=> <<L - c[1], c[2]>> \in Mask(L, r)
NorthPole == r.type = "polar" => \A j \in Cols(L) : <<0, j>> \in Mask(L, r)
(* on samples a box marks a product of ranges, the limits included *)
BoxSize == r.type = "lim_lat_lon" /\ r.tmin % 2 = 0 /\ r.tmax % 2 = 0
           /\ r.pmin % 2 = 0 /\ r.pmax % 2 = 0 /\ r.pmax < 4 * L =>
    Cardinality(Mask(L, r)) = ((r.tmax - r.tmin) \div 2 + 1) * ((r.pmax - r.pmin) \div 2 + 1)
Emit == r # None =>
    Serialize(ToJson([L |-> L, r |-> r]) \o "\n", IOEnv.CASES,
        [format |-> "TXT", charset |-> "UTF-8",
         openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
