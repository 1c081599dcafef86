---------------------------- MODULE MeshTransforms ----------------------------
(* Fields on the vertices of a mesh and their coefficients.  A basis function  *)
(* is a sequence of whole numbers, one of each vertex, and a Slepian function  *)
(* is a combination of the basis functions.                                    *)
EXTENDS Num

Dot(a, b) == Sum([x \in DOMAIN a |-> a[x] * b[x]])
Forward(basis, u) == [i \in DOMAIN basis |-> Dot(u, basis[i])]
Inverse(basis, c) == [x \in DOMAIN basis[1] |->
                        Sum([i \in DOMAIN basis |-> c[i] * basis[i][x]])]
(* the Slepian functions on the vertices *)
Fields(basis, w) == [p \in DOMAIN w |-> Inverse(basis, w[p])]
Masked(u, mask) == [x \in DOMAIN u |-> IF mask[x] THEN u[x] ELSE 0]

(* what the coefficients are computed from: coefficients come first, then the  *)
(* field in the region if there is a mask                                      *)
Method(given) == IF "coefficients" \in given THEN "coefficients"
                 ELSE IF "field" \in given
                 THEN (IF "mask" \in given THEN "region" ELSE "mesh")
                 ELSE "none"
(* inv are the reciprocals of the eigenvalues *)
Coefficient(method, basis, w, inv, mask, u, c, p) ==
    CASE method = "coefficients" -> Dot(c, w[p])
      [] method = "mesh" -> Dot(u, Inverse(basis, w[p]))
      [] method = "region" -> Dot(Masked(u, mask), Inverse(basis, w[p])) * inv[p]
SlepianForward(method, basis, w, inv, mask, u, c, n) ==
    [p \in 1..n |-> Coefficient(method, basis, w, inv, mask, u, c, p)]
SlepianInverse(basis, w, f, number) ==
    LET s == [p \in 1..number |-> Inverse(basis, w[p])]
    IN [x \in DOMAIN basis[1] |-> Sum([p \in 1..Min2(number, Len(f)) |-> f[p] * s[p][x]])]
(* three times the value of a field on each face: its vertices count alike     *)
OnFaces(faces, u) == [k \in DOMAIN faces |-> Sum([i \in 1..3 |-> u[faces[k][i] + 1]])]
=============================================================================
