----------------------------- MODULE EigenTrace -----------------------------
(* Slepian functions computed by the package, against EigenBasis.            *)
EXTENDS EigenBasis, TraceLog

VARIABLES l, bad, full
tvars == <<l, bad, full, vars>>

Basis(e) ==
    [ count |-> Len(e.ev) = e.L * e.L /\ Len(e.orth) = e.L * e.L,
      orthonormal |-> Orthonormal(e.orth, e.scale, e.tol),
      region_diagonal |-> RegionDiagonal(e.reg, e.tol),
      region_energy |-> RegionEnergy(e.reg, e.ev, e.tol),
      descending |-> Descending(e.ev, e.tol),
      bounded |-> Bounded(e.ev, e.scale, e.tol),
      trace |-> TraceIs(e.ev, e.shannon, e.L * e.L * e.tol),
      shannon_number |-> NearestInteger(e.N, e.shannon, e.scale, e.tol) ]
(* each function of a polar cap has one order; a given order is that part    *)
Orders(e) ==
    [ one_order |-> \A i \in DOMAIN e.orders : e.support[i] = <<e.orders[i]>>,
      each_order |-> \A m \in -(e.L - 1)..(e.L - 1) :
            Cardinality({i \in DOMAIN e.orders : e.orders[i] = m}) = e.L - Abs(m) ]
OneOrder(e) ==
    LET part == SelectSeq(full.pairs, LAMBDA p : p[1] = e.m)
    IN [ same_length |-> Len(part) = Len(e.ev),
         same_values |-> Len(part) = Len(e.ev) =>
                            \A i \in DOMAIN e.ev : Close(part[i][2], e.ev[i], e.tol),
         only_order |-> \A i \in DOMAIN e.support : e.support[i] = <<e.m>>,
         orthonormal |-> Orthonormal(e.orth, e.scale, e.tol),
         region_energy |-> RegionEnergy(e.reg, e.ev, e.tol) ]
Clauses(e) == CASE e.kind = "basis" -> Basis(e)
                [] e.kind = "orders" -> Orders(e)
                [] e.kind = "one_order" -> OneOrder(e)
                [] e.kind = "solver" ->
                     [ solver |-> e.solver = e.expected,
                       same_region |-> e.region = e.given,
                       same_size |-> e.N = e.expected_N ]
                [] OTHER -> [known_event |-> FALSE]

TraceInit == /\ l = 1 /\ bad = <<>> /\ full = [pairs |-> <<>>]
             /\ phase = "trace" /\ region = {} /\ D = Zero /\ pairs = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \o Report(l, Failing(Clauses(Trace[l])))
             /\ full' = IF Trace[l].kind = "orders"
                        THEN [pairs |-> [i \in DOMAIN Trace[l].orders |->
                                           <<Trace[l].orders[i], Trace[l].ev[i]>>]]
                        ELSE full
             /\ l' = l + 1
             /\ (l' = Len(Trace) + 1 => Verdict(bad'))
             /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
