----------------------------- MODULE MeshSpectrum -----------------------------
(* The Laplacian of a triangle mesh, the region of a mesh and its Shannon      *)
(* number.  Vertices are points of a lattice and the triangles have twice the  *)
(* area 1, such that the cotangent of a corner is the inner product of its two *)
(* edges, a whole number.                                                      *)
EXTENDS EigenBasis

Minus(a, b) == [d \in 1..3 |-> a[d] - b[d]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3],
                 a[1] * b[2] - a[2] * b[1]>>
Unimodular(v, t) == LET n == Cross(Minus(v[t[2]], v[t[1]]), Minus(v[t[3]], v[t[1]]))
                    IN Dot(n, n) = 1
Next3(k) == (k % 3) + 1
(* the cotangent at the corner k of the triangle t *)
Cot(v, t, k) == Dot(Minus(v[t[Next3(k)]], v[t[k]]), Minus(v[t[Next3(Next3(k))]], v[t[k]]))
(* the cotangent opposite of the edge between i and j, zero if not an edge *)
Opposite(v, t, i, j) ==
    Sum([k \in 1..3 |-> IF {t[Next3(k)], t[Next3(Next3(k))]} = {i, j} THEN Cot(v, t, k) ELSE 0])
(* twice the weights of the edges, over all triangles, and twice the Laplacian *)
Weight(v, faces, i, j) == Sum([n \in DOMAIN faces |-> Opposite(v, faces[n], i, j)])
Laplacian(v, faces) ==
    LET w == [i \in DOMAIN v |-> [j \in DOMAIN v |->
                IF i = j THEN 0 ELSE Weight(v, faces, i, j)]]
    IN [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN Sum(w[i]) ELSE -w[i][j]]]

(* twice the energy of the function which is linear on each triangle *)
FaceEnergy(v, t, f) ==
    LET e == Minus(v[t[2]], v[t[1]])   d == Minus(v[t[3]], v[t[1]])
        a == f[t[2]] - f[t[1]]         b == f[t[3]] - f[t[1]]
        g == [x \in 1..3 |-> a * d[x] - b * e[x]]
    IN Dot(g, g)
Energy(v, faces, f) == Sum([n \in DOMAIN faces |-> FaceEnergy(v, faces[n], f)])
Quadratic(l, f) == Sum([i \in DOMAIN l |-> f[i] * Sum([j \in DOMAIN l |-> l[i][j] * f[j]])])

(* a region is a box which contains its boundary *)
InBox(x, box) == \A d \in 1..3 : box[d][1] <= x[d] /\ x[d] <= box[d][2]
Inside(v, box) == [i \in DOMAIN v |-> InBox(v[i], box)]
Count(mask) == Cardinality({i \in DOMAIN mask : mask[i]})
(* the number of functions k times the fraction c / n, to the nearest integer *)
IsShannon(s, k, c, n) == 2 * Abs(s * n - k * c) <= n
Shannon(k, c, n) == CHOOSE s \in 0..k : IsShannon(s, k, c, n)

(* what one subdivision makes of the numbers of vertices, edges and faces *)
Subdivide(s) == <<s[1] + s[2], 2 * s[2] + 3 * s[3], 4 * s[3]>>
RECURSIVE Subdivided(_, _)
Subdivided(s, n) == IF n = 0 THEN s ELSE Subdivided(Subdivide(s), n - 1)
=============================================================================
