----------------------------- MODULE Schedules -----------------------------
(* All schedules of a length: who takes the next turn.                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Turns, Length
VARIABLE s
Init == s = <<>>
Next == Len(s) < Length /\ \E t \in 0..Turns - 1 : s' = Append(s, t)
Spec == Init /\ [][Next]_s
Emit == Len(s) = Length =>
          Serialize(ToJson(s) \o "\n", IOEnv.CASES,
             [format |-> "TXT", charset |-> "UTF-8",
              openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
