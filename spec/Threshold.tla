----------------------------- MODULE Threshold -----------------------------
(* Hard thresholding: values below the threshold become zero, all others      *)
(* stay.  Values are pairs of integers.                                       *)
EXTENDS Num

Below(v, t) == t > 0 /\ CNorm2(v) < Sqr(t)
Hard(f, t) == [i \in DOMAIN f |-> IF Below(f[i], t) THEN CZero ELSE f[i]]
(* one threshold for each scale; the first rows may be left alone *)
HardRows(w, sigma, n, skip) ==
    [j \in DOMAIN w |-> IF j <= skip THEN w[j] ELSE Hard(w[j], n * sigma[j - skip])]
(* from magnitudes, for fields which are not integers; all of them are away   *)
(* from the threshold                                                         *)
Remaining(mags, thresholds, parts, k) ==
    CSum([i \in DOMAIN mags |-> IF mags[i] >= thresholds[i] THEN parts[i][k] ELSE CZero])
=============================================================================
