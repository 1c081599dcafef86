----------------------------- MODULE StoreCases -----------------------------
(* Histories of computations and removals of files, for the package.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NConfigs, NParts, Depth
Ops == {[op |-> "compute", cfg |-> c, part |-> 0] : c \in 1..NConfigs}
       \cup {[op |-> "remove", cfg |-> c, part |-> i] : c \in 1..NConfigs, i \in 1..NParts}
VARIABLES hist, saved
vars == <<hist, saved>>
Init == hist = <<>> /\ saved = {}
Do(o) == /\ Len(hist) < Depth
         /\ (o.op = "remove" => o.cfg \in saved)
         /\ hist' = Append(hist, o)
         /\ saved' = IF o.op = "compute" THEN saved \cup {o.cfg} ELSE saved \ {o.cfg}
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
(* written when complete: each ends with a computation *)
Emit == (Len(hist) = Depth /\ hist[Depth].op = "compute") =>
          Serialize(ToJson(hist) \o "\n", IOEnv.CASES,
             [format |-> "TXT", charset |-> "UTF-8",
              openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
