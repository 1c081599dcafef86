------------------------------ MODULE Workers ------------------------------
(* A matrix filled in parallel.  The caller allocates shared memory, divides  *)
(* the rows among workers, waits for them, and builds the result from the     *)
(* shared memory, which is released in the end.  Workers attach, fill their   *)
(* rows entry by entry, and detach; each of them may fail anywhere.           *)
(*                                                                            *)
(* Consume:  the caller looks at what became of each worker                   *)
(* Finally:  the memory is released on failure, too                           *)
(* Private:  an entry is accumulated in a variable of the worker's own,       *)
(*           otherwise in one which the workers share                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Rows, Workers, Consume, Finally, Private, Faults

(* the division of n rows among k workers: the second half is reversed, such  *)
(* that long and short rows mix, then each worker takes every k-th            *)
Order(n) == [i \in 0..n - 1 |-> IF i < n \div 2 THEN i ELSE n - 1 - (i - n \div 2)]
Chunk(n, k, w) == {Order(n)[i] : i \in {j \in 0..n - 1 : j % k = w}}
Partition(n, k) == /\ UNION {Chunk(n, k, w) : w \in 0..k - 1} = 0..n - 1
                   /\ \A v, w \in 0..k - 1 :
                        v # w => Chunk(n, k, v) \cap Chunk(n, k, w) = {}
ASSUME \A n \in 0..12, k \in 1..14 : Partition(n, k)

W == 0..Workers - 1
R == 0..Rows - 1
Value(i) == i + 1            \* what row i holds when it is filled
VARIABLES mem,      \* row -> value
          at,       \* worker -> where it is
          row,      \* worker -> the row it fills
          todo,     \* worker -> rows left
          acc,      \* worker -> its accumulator (that of 0 when shared)
          shared,   \* the shared memory: "live" or "released"
          main,     \* the caller: "waiting", "returned", "raised"
          saved, faults, hist
vars == <<mem, at, row, todo, acc, shared, main, saved, faults, hist>>

A(w) == IF Private THEN w ELSE 0
Init == /\ mem = [i \in R |-> 0]
        /\ at = [w \in W |-> "new"]
        /\ row = [w \in W |-> -1]
        /\ todo = [w \in W |-> Chunk(Rows, Workers, w)]
        /\ acc = [w \in W |-> 0]
        /\ shared = "live" /\ main = "waiting" /\ saved = FALSE
        /\ faults = 0 /\ hist = <<>>

Turn(w) == hist' = Append(hist, w)
Attach(w) == /\ at[w] = "new" /\ at' = [at EXCEPT ![w] = "next"] /\ Turn(w)
             /\ UNCHANGED <<mem, row, todo, acc, shared, main, saved, faults>>
(* take the next row and start to accumulate *)
Begin(w) == /\ at[w] = "next" /\ todo[w] # {}
            /\ LET i == CHOOSE i \in todo[w] : \A j \in todo[w] : i <= j
               IN /\ row' = [row EXCEPT ![w] = i]
                  /\ todo' = [todo EXCEPT ![w] = @ \ {i}]
                  /\ acc' = [acc EXCEPT ![A(w)] = Value(i)]
            /\ at' = [at EXCEPT ![w] = "sum"] /\ Turn(w)
            /\ UNCHANGED <<mem, shared, main, saved, faults>>
Store(w) == /\ at[w] = "sum"
            /\ mem' = [mem EXCEPT ![row[w]] = acc[A(w)]]
            /\ at' = [at EXCEPT ![w] = "next"] /\ Turn(w)
            /\ UNCHANGED <<row, todo, acc, shared, main, saved, faults>>
Detach(w) == /\ at[w] = "next" /\ todo[w] = {}
             /\ at' = [at EXCEPT ![w] = "done"] /\ Turn(w)
             /\ UNCHANGED <<mem, row, todo, acc, shared, main, saved, faults>>
Fail(w) == /\ faults < Faults /\ at[w] \in {"new", "next", "sum"}
           /\ at' = [at EXCEPT ![w] = "failed"]
           /\ faults' = faults + 1 /\ Turn(w)
           /\ UNCHANGED <<mem, row, todo, acc, shared, main, saved>>
Ended == \A w \in W : at[w] \in {"done", "failed"}
Failed == \E w \in W : at[w] = "failed"
Join == /\ main = "waiting" /\ Ended
        /\ main' = IF Failed /\ Consume THEN "raised" ELSE "returned"
        /\ saved' = ~(Failed /\ Consume)
        /\ shared' = IF Failed /\ Consume /\ ~Finally THEN shared ELSE "released"
        /\ UNCHANGED <<mem, at, row, todo, acc, faults, hist>>
Next == Join \/ \E w \in W : Attach(w) \/ Begin(w) \/ Store(w) \/ Detach(w) \/ Fail(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Deterministic == main = "returned" => \A i \in R : mem[i] = Value(i)
NotHidden == main # "waiting" => (main = "raised" <=> Failed)
NothingSaved == Failed => ~saved
Released == main # "waiting" => shared = "released"
UsedWhileLive == \A w \in W : at[w] \in {"new", "next", "sum"} => shared = "live"
Ends == <>(main # "waiting")

View == <<mem, at, row, todo, acc, shared, main, saved, faults>>
Emit == main # "waiting" =>
    Serialize(ToJson([turns |-> hist, workers |-> Workers,
                      failed |-> {w \in W : at[w] = "failed"}]) \o "\n",
        IOEnv.CASES, [format |-> "TXT", charset |-> "UTF-8",
                      openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
