---------------------------- MODULE LookupTrace ----------------------------
(* Lookups of the package against Lookup: the observed source of every file   *)
(* is the one which the specification's state gives.                          *)
EXTENDS Naturals, TraceLog

VARIABLES l, bad, remote, local, known, loads
tvars == <<l, bad, remote, local, known, loads>>

(* a file of several parts is used only when all of its parts are found *)
Source(f) == IF known = "listed" /\ f \in remote THEN "remote"
             ELSE IF f \in local THEN "local" ELSE "computed"
Sources(e) == [i \in DOMAIN e.parts |-> Source(e.parts[i])]
Want(e) == IF \E i \in DOMAIN e.parts : Sources(e)[i] = "computed"
           THEN [i \in DOMAIN e.parts |-> "computed"] ELSE Sources(e)
Clauses(e) ==
    CASE e.kind = "process" -> [known |-> TRUE]
      [] e.kind = "load" -> [ once |-> loads = 0 ]
      [] e.kind = "find" ->
           [ answers |-> e.outcome = "ok",
             loaded_first |-> known # "none",
             source |-> e.outcome = "ok" => e.from = Source(e.parts[1]),
             nothing_written |-> e.outcome = "ok" => e.wrote = <<>> ]
      [] e.kind = "use" ->
           [ answers |-> e.outcome = "ok",
             source |-> e.outcome = "ok" => e.from = Want(e),
             saved |-> e.outcome = "ok" /\ Want(e)[1] = "computed" /\ e.saves =>
                          \A i \in DOMAIN e.parts : e.parts[i] \in ToSet(e.wrote) ]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == /\ l = 1 /\ bad = <<>> /\ remote = {} /\ local = {}
             /\ known = "none" /\ loads = 0
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ bad' = bad \o Report(l, {c \in DOMAIN Clauses(e) : ~Clauses(e)[c]})
          /\ remote' = IF e.kind = "process" THEN ToSet(e.remote) ELSE remote
          /\ local' = CASE e.kind = "process" -> ToSet(e.local)
                        [] e.kind = "use" -> local \cup ToSet(e.wrote)
                        [] OTHER -> local
          /\ known' = CASE e.kind = "process" -> "none"
                        [] e.kind = "load" -> e.result
                        [] OTHER -> known
          /\ loads' = CASE e.kind = "process" -> 0
                        [] e.kind = "load" -> loads + 1
                        [] OTHER -> loads
    /\ l' = l + 1
    /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
