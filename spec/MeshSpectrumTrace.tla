-------------------------- MODULE MeshSpectrumTrace --------------------------
(* Meshes, their basis functions and their Slepian functions, as computed.     *)
EXTENDS MeshSpectrum, TraceLog
VARIABLES l, bad
tvars == <<l, bad, vars>>

Small(s, tol) == \A i \in DOMAIN s : Close(s[i], 0, tol)
Real(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> <<m[i][j], 0>>]]
Spectrum(e) ==
    [ count |-> Len(e.ev) = e.k /\ Len(e.gram) = e.k /\ e.number = e.k,
      orthonormal |-> Orthonormal(Real(e.gram), e.scale, e.tol),
      eigenvectors |-> Small(e.residual, e.tol),
      ascending |-> \A i \in 1..Len(e.ev) - 1 : e.ev[i] <= e.ev[i + 1] + e.tol,
      semidefinite |-> \A i \in DOMAIN e.ev : e.ev[i] >= -e.tol,
      lowest |-> \A i \in DOMAIN e.lowest : Close(e.ev[i], e.lowest[i], e.tol) ]
Clauses(e) ==
    CASE e.outcome # "ok" -> [computed |-> FALSE]
      [] e.kind = "laplacian" ->
            LET want == Laplacian(e.vertices, e.faces)
            IN [ laplacian |-> \A i, j \in DOMAIN want :
                    Close(e.got[i][j], want[i][j] * e.scale, 1) ]
      [] e.kind = "region" -> [ region |-> e.got = Inside(e.vertices, e.box) ]
      [] e.kind = "spectrum" -> Spectrum(e)
      [] e.kind = "mesh" ->
            LET n == Subdivided(e.raw, e.levels)
            IN [ vertices |-> e.vertices = n[1],
                 faces |-> e.faces = n[3],
                 kept |-> e.kept,
                 midpoints |-> e.levels = 1 => e.midpoints = n[1] - e.raw[1],
                 area |-> Close(e.area, e.raw_area, e.tol),
                 region |-> e.got = Inside(e.sample, e.box) ]
      [] e.kind = "slepian" ->
            LET gram == Real(e.gram)   reg == Real(e.reg)
            IN [ count |-> Len(e.ev) = e.k /\ Len(e.gram) = e.k,
                 orthonormal |-> Orthonormal(gram, e.scale, e.tol),
                 region_diagonal |-> RegionDiagonal(reg, e.tol),
                 region_energy |-> RegionEnergy(reg, e.ev, e.tol),
                 descending |-> Descending(e.ev, e.tol),
                 bounded |-> Bounded(e.ev, e.scale, e.tol),
                 trace |-> TraceIs(e.ev, e.energy, e.k * e.tol),
                 shannon |-> IsShannon(e.N, e.k, e.c, e.n),
                 mesh_kept |-> e.kept ]
      [] e.kind = "mesh size" -> [ number |-> e.got = e.k ]
      [] e.kind = "shannon" -> [ shannon |-> IsShannon(e.got, e.k, e.c, e.n) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>> /\ phase = "trace" /\ region = {} /\ D = Zero /\ pairs = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
             /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
