------------------------------- MODULE Lookup -------------------------------
(* Where a file comes from: the registry, the local folder, or a computation. *)
(* The registry is loaded at the first lookup of a process, once, and its     *)
(* load may fail.  A process is asked for files in any order.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Files, Depth
Loads == {"ok", "fails"}

VARIABLES remote,     \* the files which the registry lists
          local,      \* the files which are in the local folder
          fate,       \* what will happen to the load of the registry
          known,      \* what the process knows: "none", or the listed files
          loads,      \* how often the registry was asked for
          hist        \* the answers, in order
vars == <<remote, local, fate, known, loads, hist>>

Init == /\ remote \in SUBSET Files /\ local \in SUBSET Files
        /\ fate \in Loads
        /\ known = "none" /\ loads = 0 /\ hist = <<>>

Load == /\ known = "none"
        /\ known' = IF fate = "ok" THEN "listed" ELSE "unavailable"
        /\ loads' = loads + 1
        /\ UNCHANGED <<remote, local, fate, hist>>
Source(f) == IF known = "listed" /\ f \in remote THEN "remote"
             ELSE IF f \in local THEN "local"
             ELSE "computed"
Ask(f) == /\ known # "none"
          /\ Len(hist) < Depth
          /\ hist' = Append(hist, [file |-> f, from |-> Source(f)])
          /\ local' = IF Source(f) = "computed" THEN local \cup {f} ELSE local
          /\ UNCHANGED <<remote, fate, known, loads>>
Next == Load \/ \E f \in Files : Ask(f)
Spec == Init /\ [][Next]_vars

OncePerProcess == loads <= 1
RegistryFirst == \A i \in DOMAIN hist :
    (fate = "ok" /\ hist[i].file \in remote) <=> hist[i].from = "remote"
LocalThen == \A i \in DOMAIN hist :
    hist[i].from = "computed" => hist[i].file \in local   \* saved
ComputedOnce == \A i, j \in DOMAIN hist :
    i < j /\ hist[i].file = hist[j].file /\ hist[i].from = "computed"
        => hist[j].from = "local"
NoNetworkNeeded == fate = "fails" => \A i \in DOMAIN hist : hist[i].from # "remote"

Emit == Len(hist) = Depth =>
    Serialize(ToJson([remote |-> remote,
                      local |-> {f \in local : ~\E i \in DOMAIN hist :
                                    hist[i] = [file |-> f, from |-> "computed"]},
                      fate |-> fate,
                      asks |-> [i \in DOMAIN hist |-> hist[i].file]]) \o "\n",
        IOEnv.CASES, [format |-> "TXT", charset |-> "UTF-8",
                      openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
