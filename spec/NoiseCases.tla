----------------------------- MODULE NoiseCases -----------------------------
(* Histories of noisings.  The generator of the noise is either made for each *)
(* noising from the same seed, or (the broken design) continues.              *)
EXTENDS Noise, CaseLog
CONSTANTS Kinds, Signals, Steps, Continue, Emitting

Ratios == {-20, 0, 20}
Ones == {<<<<1, 0>>, <<1, 0>>>>, <<<<0, 2>>, <<-2, 0>>>>, <<<<7, 0>>, <<0, 1>>>>}
VARIABLES drawn, log
vars == <<drawn, log>>
Unit == 10
(* the first numbers of the generator, from any position *)
Numbers == <<3, -1, 4, 1, -5, 9, 2, -6>>
Draw(at, n) == [i \in 1..n |-> <<10 * Numbers[((at + i) % 8) + 1], 0>>]
Position == IF Continue THEN drawn ELSE 0
Noised(kind, v, ratio) ==
    LET n == Scaled(Draw(Position, Len(v)), Sigma(v, ratio, Unit), Unit)
    IN [kind |-> kind, signal |-> v, ratio |-> ratio, noise |-> n,
        kept |-> v, result |-> Add([i \in DOMAIN v |-> CScale(10, v[i])], n)]
Plain(kind, v) == [kind |-> kind, signal |-> v, ratio |-> 99,
                   noise |-> [i \in DOMAIN v |-> CZero],
                   kept |-> <<>>, result |-> [i \in DOMAIN v |-> CScale(10, v[i])]]
Init == drawn = 0 /\ log = <<>>
Noise == /\ Len(log) < Steps
         /\ \E k \in Kinds, v \in Signals, r \in Ratios : log' = Append(log, Noised(k, v, r))
         /\ drawn' = drawn + 2
NoNoise == /\ Len(log) < Steps
           /\ \E k \in Kinds, v \in Signals : log' = Append(log, Plain(k, v))
           /\ UNCHANGED drawn
Next == Noise \/ NoNoise
Spec == Init /\ [][Next]_vars

Exact == \A i \in DOMAIN log : IsExact(log[i].signal)
Reproducible == \A i, j \in DOMAIN log :
    (log[i].signal = log[j].signal /\ log[i].ratio = log[j].ratio)
        => log[i].noise = log[j].noise
Unchanged == \A i \in DOMAIN log : log[i].ratio = 99 =>
    log[i].result = [k \in DOMAIN log[i].signal |-> CScale(10, log[i].signal[k])]
(* ten times the amplitude for each 20 decibels less *)
Tenfold == \A i, j \in DOMAIN log :
    (log[i].signal = log[j].signal /\ log[i].ratio = 0 /\ log[j].ratio = -20)
        => Power(log[j].noise) = 100 * Power(log[i].noise)
Emit == (Emitting /\ Len(log) = Steps) =>
    EmitCase([i \in DOMAIN log |-> [kind |-> log[i].kind, ratio |-> log[i].ratio]])
=============================================================================
