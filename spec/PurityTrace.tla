---------------------------- MODULE PurityTrace ----------------------------
(* Recorded histories.  Values are numbers, equal for equal values.  A        *)
(* history begins with objects of known names, whose contents are the same in *)
(* every history; "alone" are calls in processes of their own.                *)
EXTENDS Purity, TraceLog
VARIABLES l, bad, known, held
tvars == <<l, bad, known, held>>

Failing(r) == {c \in DOMAIN r : ~r[c]}
Clauses(e) ==
    CASE e.kind = "begin" ->
            [ same_objects |-> \A i \in DOMAIN e.objects : ~Differs(known, e.objects[i], e.contents[i]) ]
      [] e.kind = "call" ->
            [ same_outcome |-> ~Differs(known, e.call \o " outcome", e.outcome),
              (* the generators which everybody shares are as they were *)
              random_kept |-> e.random = "kept",
              same_result |-> ~Differs(known, e.call, e.result),
              (* what it was given is as it was at the beginning, before and after *)
              kept |-> \A i \in DOMAIN e.objects : e.after[i] = held[e.objects[i]] ]
      [] e.kind = "disturb" -> [ok |-> TRUE]
      [] OTHER -> [known_event |-> FALSE]
TraceInit == l = 1 /\ bad = <<>> /\ known = <<>> /\ held = <<>>
TraceNext == LET e == Trace[l] IN
    /\ l <= Len(Trace)
    /\ bad' = bad \o Report(l, Failing(Clauses(e)))
    /\ known' = CASE e.kind = "begin" -> LearnAll(known, e.objects, e.contents)
                  [] e.kind = "call" -> LearnAll(known, <<e.call, e.call \o " outcome">>,
                                                 <<e.result, e.outcome>>)
                  [] OTHER -> known
    (* what a call changed is blamed on it alone *)
    /\ held' = CASE e.kind = "begin" -> LearnAll(<<>>, e.objects, e.contents)
                 [] e.kind = "call" -> LearnAll(<<>>, e.objects, e.after)
                 [] OTHER -> held
    /\ l' = l + 1
    /\ (l' = Len(Trace) + 1 => Verdict(bad'))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
