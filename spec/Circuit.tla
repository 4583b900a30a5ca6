------------------------------- MODULE Circuit -------------------------------
(***************************************************************************)
(* The design: one thing goes round between the world, the camera frame,   *)
(* the image, and rays, in exact arithmetic.                               *)
(*                                                                         *)
(* A camera (pose and model) and a world point are chosen from catalogs.   *)
(* The thing, at first the point, is then changed from one representation  *)
(* into another, in any order, as the calls of cam-geom do it, and the     *)
(* pose is taken apart and put together in between.  The ghost variables   *)
(* say where the thing is in the world and which pixel it was seen at; the *)
(* invariants say that no path through the circuit loses either.           *)
(*                                                                         *)
(* The environment variable DEFECT names a wrong definition (or none), to  *)
(* see that the invariants notice it; SIZE selects the catalogs.           *)
(***************************************************************************)
EXTENDS CamGeom, FiniteSets, TLC, IOUtils

Large == IOEnv.SIZE = "large"
D(x) == IOEnv.DEFECT = x

VARIABLES cam,     \* [k, p: the model; m, c: the pose], as numerals
          thing,   \* [t: what it is, x: its numbers]
          place,   \* ghost: world coordinates of the thing (of the point on the ray last chosen)
          pixel    \* ghost: the pixel it is seen at, <<>> as long as it was not seen
vars == <<cam, thing, place, pixel>>

-----------------------------------------------------------------------------
(* Catalogs *)
N3(v) == S3(v)
N9(m) == <<S3(m[1]), S3(m[2]), S3(m[3])>>
M9(s) == <<V3(s[1]), V3(s[2]), V3(s[3])>>
S2(v) == <<RStr(v[1]), RStr(v[2])>>
U2(s) == <<R(s[1]), R(s[2])>>
PN(p) == IF Len(p) = 5 THEN <<R(p[1]), R(p[2]), R(p[3]), R(p[4]), R(p[5])>>
         ELSE IF Len(p) = 4 THEN <<R(p[1]), R(p[2]), R(p[3]), R(p[4])>> ELSE <<R(p[1]), R(p[2]), R(p[3])>>
Quats == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 1, 1, 0>>, <<1, 2, 3, 4>>, <<-2, 1, 0, 5>>, <<1, -1, 2, 0>>}
Rots == {N9(Rot(<<R(q[1]), R(q[2]), R(q[3]), R(q[4])>>)) : q \in Quats}
Centers == {<<"0", "0", "0">>, <<"-3", "1/2", "7">>} \cup IF Large THEN {<<"10", "0", "10">>, <<"1/3", "-1/7", "1@10">>} ELSE {}
Models == {<<"persp", <<"100", "102", "1/2", "321", "239.9">>>>, <<"persp", <<"-50", "50", "-3", "10", "0">>>>,
           <<"ortho", <<"100", "102", "321", "239.9">>>>, <<"ortho", <<"-2", "1/4", "7", "-7">>>>,
           <<"custx", <<"1", "-2", "1/4">>>>, <<"custy", <<"1", "-2", "1/4">>>>}
          \cup IF Large THEN {<<"persp", <<"1", "1", "0", "0", "0">>>>, <<"persp", <<"0", "7", "1", "2", "3">>>>, <<"ortho", <<"0", "1", "0", "0">>>>,
                              <<"custx", <<"0", "3", "0">>>>} ELSE {}
Places == {<<"1", "-2", "4">>, <<"-3", "1/2", "8">>, <<"0", "0", "0">>} \cup IF Large THEN {<<"2/3", "-5", "-1/9">>, <<"1@9", "7", "1">>} ELSE {}
Steps == {"1", "-2"} \cup IF Large THEN {"1/3", "5"} ELSE {}

-----------------------------------------------------------------------------
M == M9(cam.m)
C == V3(cam.c)
K == cam.k
P == PN(cam.p)
T == thing.t
X == V3(thing.x)

Init == /\ \E m \in Rots, c \in Centers, k \in Models : cam = [k |-> k[1], p |-> k[2], m |-> m, c |-> c, m0 |-> m, c0 |-> c]
        /\ \E x \in Places : place = x /\ thing = [t |-> "world", x |-> x]
        /\ pixel = <<>>

\* the calls
WorldToCamera == /\ T = "world"
                 /\ thing' = [t |-> "camera", x |-> N3(IF D("plus") THEN VAdd(MV(M, X), C) ELSE ToCam(M, C, X))]
                 /\ UNCHANGED <<cam, place, pixel>>
CameraToWorld == /\ T = "camera"
                 /\ thing' = [t |-> "world", x |-> N3(IF D("transpose") THEN VAdd(MV(M, X), C) ELSE ToWorld(M, C, X))]
                 /\ UNCHANGED <<cam, place, pixel>>
Seen(u) == /\ thing' = [t |-> "pixel", x |-> S2(u)]
           /\ pixel' = IF pixel = <<>> THEN S2(u) ELSE pixel
           /\ UNCHANGED <<cam, place>>
CameraToPixel == T = "camera" /\ Projects(K, P, X) /\ Seen(Project(K, P, X))
WorldToPixel_ == /\ T = "world"
                 /\ Projects(K, P, ToCam(M, C, X))
                 /\ Seen(IF D("direct") THEN Project(K, P, ToCam(M, Zero3, X)) ELSE WorldToPixel(K, P, M, C, X))
RayThing(t, r) == /\ thing' = [t |-> t, x |-> <<N3(r[1]), N3(r[2])>>]
                  /\ UNCHANGED <<cam, place, pixel>>
Cast == T = "pixel" /\ Invertible(K, P) /\
        LET u == U2(thing.x) IN
        RayThing("rayc", IF D("noskew") /\ K = "persp"
                         THEN <<Zero3, <<RDiv(u[1] \ominus P[4], P[1]), RDiv(u[2] \ominus P[5], P[2]), R1>>>>
                         ELSE Unproject(K, P, u))
PixelToRayW == T = "pixel" /\ Invertible(K, P) /\ RayThing("rayw", PixelToWorld(K, P, M, C, U2(thing.x)))
RayT == <<V3(thing.x[1]), V3(thing.x[2])>>
RaysToWorld == T = "rayc" /\ RayThing("rayw", IF D("origin") THEN <<RayT[1], MTV(M, RayT[2])>> ELSE RayToWorld(M, C, RayT))
\* a point on the ray; points of rays with a shared origin are projected when they are not the origin
PointOnRay == \E s \in Steps :
    /\ T \in {"rayc", "rayw"}
    /\ LET x == OnRay(RayT, R(s)) IN
       /\ thing' = [t |-> IF T = "rayc" THEN "camera" ELSE "world", x |-> N3(x)]
       /\ place' = N3(IF T = "rayc" THEN ToWorld(M, C, x) ELSE x)
       /\ UNCHANGED <<cam, pixel>>
\* the pose is taken apart, and made again from rotation and translation, or rotation and center
Rebuild == /\ cam' = [cam EXCEPT !.c = N3(LET t == Translation(M, C) IN IF D("center") THEN VNeg(MV(M, t)) ELSE CenterOf(M, t))]
           /\ UNCHANGED <<thing, place, pixel>>

Next == \/ WorldToCamera \/ CameraToWorld \/ CameraToPixel \/ WorldToPixel_
        \/ Cast \/ PixelToRayW \/ RaysToWorld \/ PointOnRay \/ Rebuild

-----------------------------------------------------------------------------
W3 == V3(place)
\* C04: the frames are related by a rigid motion and its inverse
SamePlace == /\ T = "world" => VEq(X, W3)
             /\ T = "camera" => VEq(X, MV(M, VSub(W3, C)))
\* C02, C03, C09: once seen at a pixel, the thing stays at this pixel whatever path it takes
OnePixel == T = "pixel" => pixel # <<>> /\ REq(R(thing.x[1]), R(pixel[1])) /\ REq(R(thing.x[2]), R(pixel[2]))
\* C01, C03: the documented formulas, solved for zero
Documented == T = "pixel" =>
    LET q == MV(M, VSub(W3, C))  u == U2(thing.x) IN
    /\ K = "persp" => /\ RSgn(P[1] \otimes q[1] \oplus P[3] \otimes q[2] \oplus (P[4] \ominus u[1]) \otimes q[3]) = 0
                      /\ RSgn(P[2] \otimes q[2] \oplus (P[5] \ominus u[2]) \otimes q[3]) = 0
    /\ K = "ortho" => REq(u[1], P[1] \otimes q[1] \oplus P[3]) /\ REq(u[2], P[2] \otimes q[2] \oplus P[4])
\* C08, C10, C11, C23: the ray of a pixel passes through what was seen at the pixel, in either frame
Through == T \in {"rayc", "rayw"} =>
    LET x == IF T = "rayw" THEN W3 ELSE ToCam(M, C, W3) IN
    IsZeroV(Cross(VSub(x, RayT[1]), RayT[2])) /\ ~IsZeroV(RayT[2])
\* C02, C03, C08: where rays start, and that they point to the front
Starts == /\ T = "rayw" /\ SharedOrigin(K) => VEq(RayT[1], C)
          /\ T = "rayw" /\ ~SharedOrigin(K) => VEq(RayT[2], Forward(M))
          /\ T = "rayc" => /\ RSgn(RayT[1][3]) = 0
                           /\ K \in {"persp", "ortho", "custy"} => RSgn(RayT[2][3]) > 0
\* C05, C07: there is one pose, and it is a rigid motion
OnePose == /\ M9(cam.m) = M9(cam.m0) \/ MEq(M, M9(cam.m0))
           /\ VEq(C, V3(cam.c0))
           /\ IsRotation(M)
           /\ VEq(Cross(Right(M), VNeg(Up(M))), Forward(M))
           /\ VEq(ToWorld(M, C, EZ), VAdd(C, Forward(M)))
           /\ VEq(ToCam(M, C, Zero3), Translation(M, C))
=============================================================================
