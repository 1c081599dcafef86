--------------------------- MODULE EarthDataCases ---------------------------
(* Three machines: the stages which turn published coefficients of the Earth  *)
(* into those of a function, in any order; the background at two bandlimits   *)
(* from a generator; and histories of uses of the continents, of which the    *)
(* masks are kept.                                                            *)
EXTENDS EarthData, CaseLog
CONSTANTS Size, Unsigned, GoOn, FromSmoothed, OneKey, Steps, Emitting

Reals == {<<x, 0>> : x \in {-1, 0, 2}}
Gauss == {<<1, 2>>, <<0, -1>>, <<-2, 0>>, <<0, 0>>}
Junk == <<7, 5>>
Published == {p \in [1..Size * Size -> Reals \cup Gauss \cup {Junk}] :
    \A i \in 1..Size * Size : LET m == EmmOf(i - 1)
        IN p[i] \in (IF m = 0 THEN Reals ELSE IF m > 0 THEN Gauss ELSE {Junk})}
Weights == {<<1, 1, 1>>, <<4, 2, 1>>}
Names == {"africa", "south_america"}
Bands == {1, 2}
VARIABLES machine, p, L, w, c, todo, drawn, log, stored
vars == <<machine, p, L, w, c, todo, drawn, log, stored>>

(* --- the Earth --- *)
InitEarth == /\ machine = "earth" /\ p \in Published /\ L \in 1..Size /\ w \in Weights
             /\ c = p /\ todo = {"mirror", "cut", "turn", "weigh"}
             /\ drawn = 0 /\ log = <<>> /\ stored = <<>>
Did(t) == t \in todo /\ todo' = todo \ {t} /\ UNCHANGED <<machine, p, L, w, drawn, log, stored>>
Mirror == Did("mirror") /\ c' = Mirrored(c, L, ~Unsigned)
CutOff == Did("cut") /\ c' = Cut(c, L)
Turn == Did("turn") /\ c' = Turned(c)
Weigh == Did("weigh") /\ c' = Weighted(c, w)

(* --- the background --- *)
Top == 4
Numbers == <<3, -1, 4, 1, -5, 9, 2, -6, 5, 3, -5, 8, 9, 7, -9, 3, 2, 3, -8, 4, 6, 2, 6, 4>>
FromAt(k) == [i \in 1..12 |-> Numbers[((k + i - 1) % Len(Numbers)) + 1]]
InitSky == /\ machine = "sky" /\ log = <<>> /\ drawn = 0
           /\ p = <<>> /\ L = 0 /\ w = <<>> /\ c = <<>> /\ todo = {} /\ stored = <<>>
Observe == /\ machine = "sky" /\ Len(log) < 2
           /\ \E n \in 1..Top, s \in [1..Top - 2 -> {0, 1, 3}] :
                log' = Append(log, [L |-> n, s |-> s,
                    c |-> Background(s, FromAt(IF GoOn THEN drawn ELSE 0), n)])
           /\ drawn' = drawn + 5
           /\ UNCHANGED <<machine, p, L, w, c, todo, stored>>

(* --- the continents: at most two samples, one too far from the pole --- *)
Angles == <<0, 41000, 60000>>
Heights == [africa |-> <<1, 1, 1>>, south_america |-> <<-1, 1, 0>>]
Smoothed == [africa |-> <<1, -1, 2>>, south_america |-> <<2, 1, 1>>]
Made(name, f) == [i \in DOMAIN f |-> Ashore(name, Angles[i], f[i])]
Given == <<FALSE, TRUE, TRUE>>
Key(name, n) == IF OneKey THEN n ELSE <<name, n>>
InitLand == /\ machine = "land" /\ log = <<>> /\ drawn = 0 /\ p = <<>> /\ L = 0
            /\ w = <<>> /\ c = <<>> /\ todo = {}
            /\ \E g \in {<<>>} \cup (Names \X Bands) :
                stored = IF g = <<>> THEN <<>> ELSE (Key(g[1], g[2]) :> Given)
Ops == [name : Names, L : Bands, op : {"function", "region"}, smooth : BOOLEAN]
Uses == {o \in Ops : o.smooth => o.op = "function"}
Use == /\ machine = "land" /\ Len(log) < Steps
       /\ \E o \in Uses :
            LET k == Key(o.name, o.L)
                m == IF k \in DOMAIN stored THEN stored[k]
                     ELSE Made(o.name, IF FromSmoothed /\ o.smooth THEN Smoothed[o.name]
                                       ELSE Heights[o.name])
                f == IF o.smooth THEN Smoothed[o.name] ELSE Heights[o.name]
            IN /\ stored' = (k :> m) @@ stored
               /\ log' = Append(log, [o |-> o, mask |-> m, given |-> k \in DOMAIN stored,
                                      field |-> IF o.op = "region" THEN <<>> ELSE Kept(m, f)])
       /\ UNCHANGED <<machine, p, L, w, c, todo, drawn>>

Init == InitEarth \/ InitSky \/ InitLand
Next == Mirror \/ CutOff \/ Turn \/ Weigh \/ Observe \/ Use
Spec == Init /\ [][Next]_vars

Finished == machine = "earth" /\ todo = {}
Declared == Finished => c = Earth(p, L, w)
Real == Finished => Symmetric(c, 0)
(* every coefficient of a lesser bandlimit is the same *)
Prefix == Finished => \A n \in 1..L : SubSeq(c, 1, n * n) = Earth(p, n, w)
NoJunk == Finished => \A i \in DOMAIN c : \A x \in Weights : c[i] # CConj(CScale(x[1], Junk))

Sky == machine = "sky"
LowIsZero == Sky => \A k \in DOMAIN log : \A i \in 1..Min2(4, Len(log[k].c)) : log[k].c[i] = CZero
SkyReal == Sky => \A k \in DOMAIN log : Symmetric(log[k].c, 0)
Fixed == Sky => \A j, k \in DOMAIN log : \A i \in DOMAIN log[j].c :
    (i \in DOMAIN log[k].c /\ log[j].s = log[k].s) => log[j].c[i] = log[k].c[i]
(* the amplitude of a degree follows that of its spectrum and no other *)
Follows == Sky => \A j, k \in DOMAIN log : \A i \in DOMAIN log[j].c : i \in DOMAIN log[k].c =>
    LET l == EllOf(i - 1)
    IN l >= 2 => CScale(log[k].s[l - 1], log[j].c[i]) = CScale(log[j].s[l - 1], log[k].c[i])

Land == machine = "land"
SameMask == Land => \A j, k \in DOMAIN log :
    (log[j].o.name = log[k].o.name /\ log[j].o.L = log[k].o.L) => log[j].mask = log[k].mask
AsDefined == Land => \A k \in DOMAIN log :
    log[k].mask \in {Given, Made(log[k].o.name, Heights[log[k].o.name])}
Elsewhere == Land => \A k \in DOMAIN log : log[k].o.op = "function" =>
    \A i \in DOMAIN log[k].field : ~log[k].mask[i] => log[k].field[i] = 0
Emit == Emitting =>
    /\ Finished => EmitCase([kind |-> "earth", p |-> p, L |-> L, weigh |-> w[1] # 1])
    /\ (Land /\ Len(log) = Steps) =>
        EmitCase([kind |-> "land", given |-> {k \in DOMAIN stored : stored[k] = Given},
                  ops |-> [i \in DOMAIN log |-> log[i].o]])
=============================================================================
