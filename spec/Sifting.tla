------------------------------ MODULE Sifting ------------------------------
(* Sifting convolution of coefficient vectors, of sets of them, and what      *)
(* follows from it: translation.  NoCut: no Shannon number is given.          *)
EXTENDS Num

NoCut == -1
Cut(v, n) == IF n = NoCut THEN v ELSE SubSeq(v, 1, Min2(n, Len(v)))
Sift(f, g, n) == Cut([i \in DOMAIN f |-> CMul(f[i], CConj(g[i]))], n)
(* each member of a set with one vector, or with the member of the same number *)
SiftSet(fs, g, n) == [j \in DOMAIN fs |-> Sift(fs[j], g, n)]
SiftSets(fs, gs, n) == [j \in DOMAIN fs |-> Sift(fs[j], gs[j], n)]
(* the delta at a point has the conjugates of the functions' values there *)
Delta(values) == [i \in DOMAIN values |-> CConj(values[i])]
Translate(f, values, n) == Sift(f, Delta(values), n)
=============================================================================
