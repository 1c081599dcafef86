------------------------------ MODULE TraceLog ------------------------------
(* The recorded events of the implementation and the verdict on them.  The   *)
(* verdict is total: every event is consumed, and each clause which does not *)
(* hold for an event is reported as <<number of the event, clause>>.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Verdict(bad) == JsonSerialize(IOEnv.VERDICT, [bad |-> bad, consumed |-> Len(Trace)])
Report(l, clauses) == [i \in 1..Cardinality(clauses) |->
                        <<l, SetToSeq(clauses)[i]>>]
Has(e, k) == k \in DOMAIN e
=============================================================================
