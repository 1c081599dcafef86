---------------------------- MODULE SphereCliCases ----------------------------
(* The command as a machine which works through its stages.                   *)
EXTENDS SphereCli, CaseLog
CONSTANTS EarlyView, Nameless, Few, Emitting

F(n, d) == [num |-> n, den |-> d]
Turns == IF Few THEN {<<F(3, 4), F(1, 8), F(0, 1)>>}
         ELSE {<<F(3, 4), F(1, 8), F(0, 1)>>, <<F(0, 1), F(1, 1), F(1, 2)>>,
               <<F(-3, 2), F(0, 1), F(-1, 3)>>}
Fixed == {[unnormalise |-> u, unzeropad |-> z, outline |-> o, part |-> p, noise |-> n,
           region |-> r] :
          u \in BOOLEAN, z \in BOOLEAN, o \in BOOLEAN,
          p \in IF Few THEN {"real"} ELSE {"real", "imag", "abs", "sum"}, n \in BOOLEAN, r \in BOOLEAN}
Moving == {[kind |-> k, method |-> m, conv |-> c, view |-> v,
            alpha |-> t[1], beta |-> t[2], gamma |-> t[3]] :
           k \in {"plain", "delta", "earth", "slepian", "slepian_delta"},
           m \in {"north", "rotate", "translate"}, c \in {"none", "earth", "wmap"},
           v \in {"africa", "south_america"}, t \in Turns}
VARIABLES o, pc, ops, name
vars == <<o, pc, ops, name>>
Init == /\ o \in {m @@ f : m \in Moving, f \in {x \in Fixed : x.outline /\ ~x.noise}}
        /\ pc = "built" /\ ops = <<>> /\ name = <<o.kind>>
(* the options of the figure are decided independently of the others *)
Decide == /\ pc = "built" /\ o.outline /\ ~o.noise
          /\ \E f \in Fixed : f.part = o.part /\ f.region = o.region
                                /\ o' = f @@ o /\ ~(f.outline /\ ~f.noise)
          /\ UNCHANGED <<pc, ops, name>>
Does(list, tokens, next) == /\ ops' = ops \o list /\ name' = name \o tokens
                            /\ pc' = next /\ UNCHANGED o
Refuse == pc = "built" /\ Refused(o) /\ Does(<<>>, <<>>, "refused")
Move == /\ pc = "built" /\ ~Refused(o)
        /\ Does((IF EarlyView THEN Views(o) ELSE <<>>) \o Moves(o),
                IF o.method = "north" THEN <<>> ELSE <<o.method, Angles(o)>>, "moved")
Convolve == /\ pc = "moved"
            /\ Does(Convolutions(o),
                    IF o.conv = "none" \/ Nameless THEN <<>> ELSE <<"convolved", o.conv>>,
                    "convolved")
View == /\ pc = "convolved"
        /\ Does(IF EarlyView THEN <<>> ELSE Views(o),
                IF Views(o) = <<"to_africa">> THEN <<"africa">> ELSE <<>>, "viewed")
Plot == /\ pc = "viewed"
        /\ Does(<<>>, (IF o.unzeropad THEN <<>> ELSE <<"res">>) \o <<o.part>>
                      \o (IF o.unnormalise THEN <<>> ELSE <<"norm">>), "plotted")
Next == Decide \/ Refuse \/ Move \/ Convolve \/ View \/ Plot
Spec == Init /\ [][Next]_vars

Rank(op) == CASE op \in {"rotate", "translate", "delta"} -> 1 [] op = "convolve" -> 2
              [] OTHER -> 3
Ordered == \A i, j \in DOMAIN ops : i < j => Rank(ops[i]) < Rank(ops[j])
AsDeclared == pc = "plotted" => ops = Ops(o)
Safe == pc = "refused" => ops = <<>>
(* the view is the only operation which needs no name: it follows from others *)
Named == pc = "plotted" =>
    /\ \A i \in DOMAIN ops : ops[i] \in {"rotate", "translate"} =>
            \E j \in DOMAIN name : name[j] = ops[i]
    /\ (\E i \in DOMAIN ops : ops[i] = "convolve") <=> (\E j \in DOMAIN name : name[j] = "convolved")
    /\ (\E i \in DOMAIN ops : ops[i] = "to_africa") <=> (\E j \in DOMAIN name : name[j] = "africa")
Emit == (Emitting /\ pc \in {"plotted", "refused"}) => EmitCase(o)
=============================================================================
