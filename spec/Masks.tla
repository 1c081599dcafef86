------------------------------- MODULE Masks -------------------------------
(* Which samples of the grid a region marks.  The grid of bandlimit L has     *)
(* L+1 colatitudes, both poles included, and 2L longitudes.  A limit of a     *)
(* region is a number of half steps: even on a sample, odd between two.       *)
EXTENDS Integers, Sequences, FiniteSets

Rows(L) == 0..L
Cols(L) == 0..2 * L - 1
Cells(L) == Rows(L) \X Cols(L)
InCap(L, r, i) == 2 * i <= r.tmax
InGap(L, r, i) == 2 * i >= 2 * L - r.tmax
Inside(L, r, i, j) ==
    CASE r.type = "polar" -> InCap(L, r, i) \/ (r.gap /\ InGap(L, r, i))
      [] r.type = "lim_lat_lon" -> /\ 2 * i >= r.tmin /\ 2 * i <= r.tmax
                                   /\ 2 * j >= r.pmin /\ 2 * j <= r.pmax
      [] OTHER -> FALSE
Mask(L, r) == {c \in Cells(L) : Inside(L, r, c[1], c[2])}

(* vertices inside a box and the faces which belong to it *)
InBox(v, b) == \A k \in 1..3 : v[k] >= b[k][1] /\ v[k] <= b[k][2]
FaceIn(f, inside) == \A k \in DOMAIN f : f[k] \in inside
=============================================================================
