------------------------------- MODULE Store -------------------------------
(* Saved eigensolutions: runs which look a result up, compute it when it is   *)
(* not saved, and save it as several files; runs may be killed at any step    *)
(* and may overlap.                                                           *)
(*                                                                            *)
(* A configuration (a region with its bandlimit, a mesh with its number of    *)
(* functions) has a location, the parts of its result are separate files      *)
(* there.  A configuration may depend on another one, as the Slepian          *)
(* functions of a mesh are coefficients of its eigenfunctions.  A solver      *)
(* which is not reproducible gives one of several versions.                   *)
(*                                                                            *)
(* Atomic:   a file is written beside its location, then renamed              *)
(* Separate: every configuration has a location of its own                    *)
(* Versions: the answers which the solver may give, one when reproducible     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Configs, Base, Dependent, Procs, Parts, Versions, Atomic, Separate,
          MaxRuns, MaxRemove

Loc(c) == IF Separate THEN c
          ELSE IF c = Dependent THEN c ELSE Base
None == [cfg |-> "none", ver |-> 0, whole |-> TRUE]
File(c, v) == [cfg |-> c, ver |-> v, whole |-> TRUE]
Partial(c, v) == [cfg |-> c, ver |-> v, whole |-> FALSE]

VARIABLES disk,      \* location -> part -> file
          proc,      \* process -> its state
          runs, removed
vars == <<disk, proc, runs, removed>>

Locs == {Loc(c) : c \in Configs}
Idle == [at |-> "idle", todo |-> <<>>, cfg |-> "none", part |-> 0,
         got |-> <<>>, ver |-> 0, base |-> 0]
(* what a run needs, in order: a dependent result needs its base first *)
Needs(c) == IF c = Dependent THEN <<Base, Dependent>> ELSE <<c>>

Init == /\ disk = [l \in Locs |-> [p \in 1..Parts |-> None]]
        /\ proc = [p \in Procs |-> Idle]
        /\ runs = 0
        /\ removed = 0

Start(p, c) ==
    /\ proc[p].at \in {"idle", "dead", "done", "failed"}
    /\ runs < MaxRuns
    /\ runs' = runs + 1
    /\ proc' = [proc EXCEPT ![p] = [Idle EXCEPT !.at = "look", !.todo = Needs(c),
                                               !.cfg = Head(Needs(c)), !.part = 1]]
    /\ UNCHANGED <<disk, removed>>
(* one part is looked for; all parts are needed *)
Look(p) ==
    /\ proc[p].at = "look"
    /\ LET s == proc[p]
           f == disk[Loc(s.cfg)][s.part]
       IN proc' = [proc EXCEPT ![p] =
            IF f = None THEN [s EXCEPT !.at = "solve", !.part = 1, !.got = <<>>]
            ELSE IF ~f.whole THEN [s EXCEPT !.at = "failed"]
            ELSE IF s.part < Parts
                 THEN [s EXCEPT !.part = s.part + 1, !.got = Append(s.got, f)]
                 ELSE [s EXCEPT !.at = "have", !.got = Append(s.got, f)]]
    /\ UNCHANGED <<disk, runs, removed>>
Solve(p) ==
    /\ proc[p].at = "solve"
    /\ \E v \in Versions :
         LET s == proc[p]
         IN proc' = [proc EXCEPT ![p] =
              [s EXCEPT !.at = "write", !.part = 1,
                        !.ver = IF s.cfg = Dependent THEN s.base ELSE v]]
    /\ UNCHANGED <<disk, runs, removed>>
(* opening a file truncates it, another step completes it *)
Open(p) ==
    /\ proc[p].at = "write"
    /\ proc' = [proc EXCEPT ![p].at = "close"]
    /\ disk' = IF Atomic THEN disk
               ELSE [disk EXCEPT ![Loc(proc[p].cfg)][proc[p].part] =
                        Partial(proc[p].cfg, proc[p].ver)]
    /\ UNCHANGED <<runs, removed>>
Close(p) ==
    /\ proc[p].at = "close"
    /\ LET s == proc[p]
           f == File(s.cfg, s.ver)
       IN /\ disk' = [disk EXCEPT ![Loc(s.cfg)][s.part] = f]
          /\ proc' = [proc EXCEPT ![p] =
                IF s.part < Parts
                THEN [s EXCEPT !.at = "write", !.part = s.part + 1]
                ELSE [s EXCEPT !.at = "have", !.got = [q \in 1..Parts |-> f]]]
    /\ UNCHANGED <<runs, removed>>
Have(p) ==
    /\ proc[p].at = "have"
    /\ LET s == proc[p]
       IN proc' = [proc EXCEPT ![p] =
            IF Len(s.todo) > 1
            THEN [s EXCEPT !.at = "look", !.todo = Tail(s.todo), !.part = 1,
                           !.cfg = Head(Tail(s.todo)), !.got = <<>>,
                           !.base = s.got[Parts].ver]
            ELSE [s EXCEPT !.at = "done"]]
    /\ UNCHANGED <<disk, runs, removed>>
Crash(p) ==
    /\ proc[p].at \in {"look", "solve", "write", "close", "have"}
    /\ proc' = [proc EXCEPT ![p] = [Idle EXCEPT !.at = "dead"]]
    /\ UNCHANGED <<disk, runs, removed>>
Remove(l, i) ==
    /\ removed < MaxRemove
    /\ disk[l][i] # None
    /\ removed' = removed + 1
    /\ disk' = [disk EXCEPT ![l][i] = None]
    /\ UNCHANGED <<proc, runs>>
Next == \/ \E p \in Procs :
             \/ \E c \in Configs : Start(p, c)
             \/ Look(p) \/ Solve(p) \/ Open(p) \/ Close(p) \/ Have(p) \/ Crash(p)
        \/ \E l \in Locs, i \in 1..Parts : Remove(l, i)
Spec == Init /\ [][Next]_vars

(* the answer of a run is that of its configuration, all parts of one version, *)
(* and of the version of the base which the run uses                           *)
Right(s) == /\ \A i \in 1..Parts : s.got[i].cfg = s.cfg /\ s.got[i].whole
            /\ \A i \in 1..Parts : s.got[i].ver = s.got[1].ver
            /\ s.cfg = Dependent => s.got[1].ver = s.base
Answers == \A p \in Procs : proc[p].at \in {"have", "done"} => Right(proc[p])
NeverFails == \A p \in Procs : proc[p].at # "failed"
OwnFiles == \A l \in Locs, i \in 1..Parts :
    disk[l][i] # None => disk[l][i].whole /\ disk[l][i].cfg \in Configs
                         /\ Loc(disk[l][i].cfg) = l
(* a saved result is used: nobody solves what is saved throughout *)
Reused == [][\A p \in Procs :
    proc[p].at = "look" /\ proc'[p].at = "solve" =>
        \E i \in 1..Parts : disk[Loc(proc[p].cfg)][i] = None]_vars
=============================================================================
