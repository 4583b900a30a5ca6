------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* The design: cameras, their 3 x 4 matrices, their derivatives, and views, *)
(* in exact arithmetic.                                                    *)
(*                                                                         *)
(* A perspective camera (p, m, c) is chosen from catalogs; mat is its      *)
(* matrix, which is then multiplied by factors and normalized, and from    *)
(* which a camera is made again.  The world may be moved as well.          *)
(***************************************************************************)
EXTENDS CamGeom, FiniteSets, TLC, IOUtils

Large == IOEnv.SIZE = "large"
D(x) == IOEnv.DEFECT = x

VARIABLES cam,   \* [p, m, c], numerals
          mat,   \* <<3 x 3 matrix, column>>, numerals
          hist   \* how many calls
vars == <<cam, mat, hist>>

N9(m) == <<S3(m[1]), S3(m[2]), S3(m[3])>>
M9(s) == <<V3(s[1]), V3(s[2]), V3(s[3])>>
P5(p) == <<R(p[1]), R(p[2]), R(p[3]), R(p[4]), R(p[5])>>
S5(p) == <<RStr(p[1]), RStr(p[2]), RStr(p[3]), RStr(p[4]), RStr(p[5])>>
Quats == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 1, 1, 0>>, <<1, 2, 3, 4>>} \cup IF Large THEN {<<-2, 1, 0, 5>>, <<1, -1, 2, 0>>, <<0, 0, 0, 1>>} ELSE {}
RotOf(q) == Rot(<<R(q[1]), R(q[2]), R(q[3]), R(q[4])>>)
Centers == {<<"0", "0", "0">>, <<"-3", "1/2", "7">>} \cup IF Large THEN {<<"1/3", "-1/7", "1@10">>} ELSE {}
Pars == {<<"100", "102", "1/2", "321", "239.9">>, <<"50", "50", "-3", "10", "0">>} \cup IF Large THEN {<<"1", "1", "0", "0", "0">>, <<"1/9", "700", "2", "-1", "1">>} ELSE {}
Factors == {"-1", "3"} \cup IF Large THEN {"1@-20", "-7/5"} ELSE {}
Points == {<<"1", "-2", "4">>, <<"2", "0", "-9">>, <<"1/2", "6", "-1">>}
Deltas == {"1", "-1@-3"}

P == P5(cam.p)
M == M9(cam.m)
C == V3(cam.c)
A == M9(mat[1])
B == V3(mat[2])
Mat(a, b) == <<N9(a), S3(b)>>

-----------------------------------------------------------------------------
(* The camera of a regular matrix: positive focal lengths, a proper rotation.  (All norms are
   rational for the matrices that are reached here, and RSqrt is exact then.) *)
Norm(v) == RSqrt(NSq(v))
Decompose(a, b) ==
    LET s == IF D("nosign") THEN R1 ELSE R(RSgn(Det(a)))
        l == s \otimes Norm(a[3])
        k == MScale(RDiv(R1, l), a)
        r3 == k[3]
        cy == Dot(k[2], r3)
        w2 == VSub(k[2], VScale(cy, r3))
        fy == Norm(w2)
        r2 == VScale(RDiv(R1, fy), w2)
        cx == Dot(k[1], r3)
        sk == Dot(k[1], r2)
        w1 == VSub(VSub(k[1], VScale(cx, r3)), VScale(sk, r2))
        fx == Norm(w1)
        r1 == VScale(RDiv(R1, fx), w1)
    IN [p |-> <<fx, fy, sk, cx, cy>>, m |-> <<r1, r2, r3>>, c |-> VNeg(Solve(a, b))]

Seen(x) == RSgn(ToCam(M, C, x)[3]) # 0

Init == /\ \E p \in Pars, q \in Quats, c \in Centers : cam = [p |-> p, m |-> N9(RotOf(q)), c |-> c]
        /\ mat = LET t == CamMatrix(P, M, C) IN Mat(t[1], t[2])
        /\ hist = 0

Count == hist < 2 /\ hist' = hist + 1
Scale == Count /\ \E k \in Factors : mat' = Mat(MScale(R(k), A), VScale(R(k), B)) /\ UNCHANGED cam
\* divide by the last entry, when there is one
LastIsOne == Count /\ RSgn(B[3]) # 0 /\ mat' = Mat(MScale(RDiv(R1, B[3]), A), VScale(RDiv(R1, B[3]), B)) /\ UNCHANGED cam
\* a camera from the matrix, and its matrix again
Remake == /\ Count
          /\ LET d == Decompose(A, B)  t == CamMatrix(d.p, d.m, d.c) IN
             /\ cam' = [p |-> S5(d.p), m |-> N9(d.m), c |-> S3(d.c)]
             /\ mat' = Mat(t[1], t[2])
\* a mirrored image is what a camera that looks backwards sees
Mirror == /\ Count
          /\ mat' = Mat(<<VNeg(A[1]), A[2], A[3]>>, <<RNeg(B[1]), B[2], B[3]>>)
          /\ LET d == Decompose(<<VNeg(A[1]), A[2], A[3]>>, <<RNeg(B[1]), B[2], B[3]>>)
             IN cam' = [p |-> S5(d.p), m |-> N9(d.m), c |-> S3(d.c)]
Next == Scale \/ LastIsOne \/ Remake \/ Mirror

-----------------------------------------------------------------------------
\* C16: the matrix projects as the camera, for points in front and behind
Projects_ == \A s \in Points : LET x == V3(s) IN
    Seen(x) => LET u == MatProject(A, B, x)  v == WorldToPixel("persp", P, M, C, x) IN REq(u[1], v[1]) /\ REq(u[2], v[2])
\* C15: from the matrix the one camera is found that it belongs to, whatever its factor
Found == LET d == Decompose(A, B) IN
    /\ \A i \in 1..5 : REq(d.p[i], P[i])
    /\ MEq(d.m, M) /\ VEq(d.c, C)
    /\ RSgn(d.p[1]) > 0 /\ RSgn(d.p[2]) > 0 /\ IsRotation(d.m)
\* C17: u(x + h e) - u(x) is h times the derivative in the direction of e, times D(x) / D(x + h e), where D
\* is the depth.  (So in the limit it is the derivative, and for every h this is an equality.)
Slope == \A s \in Points : LET x == V3(s)  j == Jacobian(P, M, C, x)  z == ToCam(M, C, x)[3] IN
    RSgn(z) # 0 => \A h \in Deltas : \A e \in {EX, EY, EZ} :
        LET y == VAdd(x, VScale(R(h), e))  zy == ToCam(M, C, y)[3] IN
        RSgn(zy) # 0 => LET u == WorldToPixel("persp", P, M, C, x)  v == WorldToPixel("persp", P, M, C, y)
                            g == R(h) \otimes RDiv(z, IF D("flat") THEN z ELSE zy)
                        IN /\ REq(v[1] \ominus u[1], g \otimes Dot(j[1], e))
                           /\ REq(v[2] \ominus u[2], g \otimes Dot(j[2], e))
\* and the derivative from the matrix, whatever its factor, is the same
SlopeOfMatrix == \A s \in Points : LET x == V3(s)  h == VAdd(MV(A, x), B) IN
    RSgn(h[3]) # 0 =>
       LET u == RDiv(h[1], h[3])  v == RDiv(h[2], h[3])  j == Jacobian(P, M, C, x) IN
       /\ VEq(j[1], VScale(RDiv(R1, h[3]), VSub(A[1], VScale(u, A[3]))))
       /\ VEq(j[2], VScale(RDiv(R1, h[3]), VSub(A[2], VScale(v, A[3]))))

\* C06: what a camera looks at and what is up for it determine its rotation
Gazes == {<<"0", "-1", "0">>, <<"0", "-3", "4">>, <<"0", "-1/2", "-20">>}     \* up directions, in camera coordinates
ViewOf(c, l, u) ==
    LET d == VSub(l, c)
        r3 == VScale(RDiv(R1, Norm(d)), d)
        x == IF D("left") THEN Cross(u, r3) ELSE Cross(r3, u)
        r1 == VScale(RDiv(R1, Norm(x)), x)
    IN <<r1, Cross(r3, r1), r3>>
Views == \A g \in Gazes, s \in {"1", "7/2"} :
    LET l == ToWorld(M, C, <<R0, R0, R(s)>>)  u == MTV(M, V3(g)) IN
    /\ IsView(M, C, l, u)
    /\ MEq(ViewOf(C, l, u), M)
    /\ \A q \in Quats : IsView(RotOf(q), C, l, u) => MEq(RotOf(q), M)

\* C19: a normalized matrix is one that some parameters make: its fixed entries are those of any intrinsic matrix
Normalized(n) == \A e \in {FixedEntries[j] : j \in 1..7} : n[e[1]] = e[2]
Twelve(k) == <<k[1][1], k[1][2], k[1][3], R0, k[2][1], k[2][2], k[2][3], R0, k[3][1], k[3][2], k[3][3], R0>>
Small12 == {<<a, b, c, o[1], o[2], d, e, o[3], o[4], o[5], o[6], o[7]>> :
               a \in {2, 0}, b \in {0, 3}, c \in {1}, d \in {-1}, e \in {4}, o \in [1..7 -> {0, 1}]}
ASSUME Forms ==
    \A n \in Small12 :
        LET k == Twelve(Intr(<<R(n[1]), R(n[6]), R(n[2]), R(n[3]), R(n[7])>>)) IN
        Normalized(n) = \A i \in 1..12 : REq(k[i], R(n[i]))
=============================================================================
