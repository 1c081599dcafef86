------------------------------ MODULE CaseLog ------------------------------
(* Cases which TLC generates for the implementation, one JSON value per line. *)
EXTENDS Sequences, TLC, Json, IOUtils
EmitCase(v) == Serialize(ToJson(v) \o "\n", IOEnv.CASES,
                  [format |-> "TXT", charset |-> "UTF-8",
                   openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
