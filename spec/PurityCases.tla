---------------------------- MODULE PurityCases ----------------------------
(* Histories of calls.  Each call takes an object, which other calls take as  *)
(* well.  The library is pure, or of one of the designs which are not: its    *)
(* random numbers are those of everybody, a call changes its object, results  *)
(* are remembered by too little, a generator goes on from call to call, or    *)
(* the result is the object's own memory, which the next call reuses.         *)
EXTENDS Purity, CaseLog
CONSTANTS Design, Steps, Emitting

Ops == 1..3
Objects == {"a", "b"}
Fresh == [a |-> 10, b |-> 20]
VARIABLES content, ambient, cache, log
vars == <<content, ambient, cache, log>>
Init == content = Fresh /\ ambient = 0 /\ cache = <<>> /\ log = <<>>

Draws(op) == op = 1 /\ Design \in {"global", "goes_on"}
Result(op, o) ==
    IF Design = "partial_key" /\ op = 2 /\ op \in DOMAIN cache THEN cache[op]
    ELSE <<op, content[o], IF Draws(op) THEN ambient ELSE 0>>
Call == /\ Len(log) < Steps
        /\ \E op \in Ops, o \in Objects :
            /\ log' = Append(log, [do |-> "call", op |-> op, object |-> o, got |-> Result(op, o)])
            /\ cache' = IF op = 2 THEN Learn(cache, op, Result(op, o)) ELSE cache
            /\ content' = IF Design = "writes" /\ op = 3 THEN [content EXCEPT ![o] = @ + 1]
                          ELSE content
            /\ ambient' = IF Draws(op) THEN ambient + 1 ELSE ambient
(* somebody else sets the seed of the global generators *)
Disturb == /\ Len(log) < Steps
           /\ log' = Append(log, [do |-> "disturb", op |-> 0, object |-> "", got |-> <<>>])
           /\ ambient' = (IF Design = "goes_on" THEN ambient ELSE 7)
           /\ UNCHANGED <<content, cache>>
Next == Call \/ Disturb
Spec == Init /\ [][Next]_vars

Calls == {i \in DOMAIN log : log[i].do = "call"}
Function == \A i, j \in Calls : (log[i].op = log[j].op /\ log[i].object = log[j].object)
    => log[i].got = log[j].got
(* as if nothing else had been called *)
Isolated == \A i \in Calls : log[i].got = <<log[i].op, Fresh[log[i].object], 0>>
Kept == content = Fresh
Emit == (Emitting /\ Len(log) = Steps) =>
    EmitCase([steps |-> [i \in DOMAIN log |->
        [do |-> log[i].do, op |-> log[i].op, object |-> log[i].object]]])
=============================================================================
