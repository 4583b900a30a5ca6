------------------------------ MODULE CamGeom ------------------------------
(***************************************************************************)
(* What cam-geom computes, as exact mathematics: poses, camera models, ray *)
(* bundles, projection matrices, and the best intersection of rays.        *)
(*                                                                         *)
(* A pose is (m, c): the rotation matrix m from world to camera axes, and  *)
(* the camera center c in world coordinates.  The camera looks along +z,   *)
(* its x axis points right and its y axis points down.                     *)
(* A ray is <<center, direction>>.                                         *)
(***************************************************************************)
EXTENDS Lin

-----------------------------------------------------------------------------
(* Poses *)
ToCam(m, c, x)   == MV(m, VSub(x, c))
ToWorld(m, c, x) == VAdd(MTV(m, x), c)
Translation(m, c) == VNeg(MV(m, c))
CenterOf(m, t)    == VNeg(MTV(m, t))            \* the center of the pose x |-> m x + t
Forward(m) == m[3]                               \* camera axes in world coordinates
Right(m)   == m[1]
Up(m)      == VNeg(m[2])
RayToWorld(m, c, ray) == <<ToWorld(m, c, ray[1]), MTV(m, ray[2])>>
IsRotation(m) == MEq(MM(m, Tr(m)), Ident) /\ REq(Det(m), R1)

(* Is (m, c) what a camera at c that looks at l with up direction u has? *)
IsView(m, c, l, u) ==
    LET f == ToCam(m, c, l)  v == MV(m, u) IN
    /\ RSgn(f[1]) = 0 /\ RSgn(f[2]) = 0 /\ RSgn(f[3]) > 0
    /\ RSgn(v[1]) = 0 /\ RSgn(v[2]) < 0

-----------------------------------------------------------------------------
(* Camera models.  k is the type of the model, p its parameters.
     "persp": <<fx, fy, skew, cx, cy>>      "ortho": <<sx, sy, cx, cy>>
   and two models which the harness adds from the outside:
     "custx": <<a, b, g>>, non-linear, rays share their origin
     "custy": <<a, b, g>>, non-linear, rays share their direction          *)
Intr(p) == <<<<p[1], p[3], p[4]>>, <<R0, p[2], p[5]>>, EZ>>     \* the perspective matrix

\* Is the projection of the point x (camera coordinates) defined?
Projects(k, p, x) ==
    CASE k = "persp" -> RSgn(x[3]) # 0
      [] k = "custx" -> RSgn(x[3] \oplus RMul(p[3], x[1])) # 0
      [] OTHER -> TRUE
Project(k, p, x) ==
    CASE k = "persp" -> LET h == MV(Intr(p), x) IN <<RDiv(h[1], h[3]), RDiv(h[2], h[3])>>
      [] k = "ortho" -> <<RMul(p[1], x[1]) \oplus p[3], RMul(p[2], x[2]) \oplus p[4]>>
      [] k = "custx" -> LET w == x[3] \oplus RMul(p[3], x[1])  q == RDiv(x[1], w) IN
                        <<p[1] \oplus q, p[2] \oplus RDiv(x[2], w) \oplus RMul(p[3], Sq(q))>>
      [] k = "custy" -> <<p[1] \oplus x[1], p[2] \oplus x[2] \oplus RMul(p[3], Sq(x[1]))>>
\* Can pixels be projected back?
Invertible(k, p) == k \in {"persp", "ortho"} => RSgn(p[1]) # 0 /\ RSgn(p[2]) # 0
Unproject(k, p, u) ==
    CASE k = "persp" -> LET y == RDiv(u[2] \ominus p[5], p[2])
                            x == RDiv(u[1] \ominus RMul(p[3], y) \ominus p[4], p[1])
                        IN <<Zero3, <<x, y, R1>>>>
      [] k = "ortho" -> <<<<RDiv(u[1] \ominus p[3], p[1]), RDiv(u[2] \ominus p[4], p[2]), R0>>, EZ>>
      [] k = "custx" -> LET x == u[1] \ominus p[1] IN
                        <<Zero3, <<x, u[2] \ominus p[2] \ominus RMul(p[3], Sq(x)), R1 \ominus RMul(p[3], x)>>>>
      [] k = "custy" -> LET x == u[1] \ominus p[1] IN
                        <<<<x, u[2] \ominus p[2] \ominus RMul(p[3], Sq(x)), R0>>, EZ>>
SharedOrigin(k) == k \in {"persp", "custx"}

WorldToPixel(k, p, m, c, x) == Project(k, p, ToCam(m, c, x))
PixelToWorld(k, p, m, c, u) == RayToWorld(m, c, Unproject(k, p, u))

-----------------------------------------------------------------------------
(* Rays *)
OnRay(ray, t) == VAdd(ray[1], VScale(t, ray[2]))
\* the point of the ray at distance d from its center
AtDistance(ray, d) == OnRay(ray, RDiv(d, RSqrt(NSq(ray[2]))))

-----------------------------------------------------------------------------
(* Perspective cameras as 3 x 4 matrices, given as a 3 x 3 matrix and a column *)
CamMatrix(p, m, c) == LET a == MM(Intr(p), m) IN <<a, VNeg(MV(a, c))>>
MatProject(a, b, x) == LET h == VAdd(MV(a, x), b) IN <<RDiv(h[1], h[3]), RDiv(h[2], h[3])>>

\* Derivative of the projection of a perspective camera with respect to the point x:
\* rows for u and v.
Jacobian(p, m, c, x) ==
    LET a == MM(Intr(p), m)
        h == MV(a, VSub(x, c))
        u == RDiv(h[1], h[3])
        v == RDiv(h[2], h[3])
        k == RDiv(R1, h[3])
    IN <<VScale(k, VSub(a[1], VScale(u, a[3]))), VScale(k, VSub(a[2], VScale(v, a[3])))>>

-----------------------------------------------------------------------------
(* The sum of squared distances of the point x from lines is x'Ax - 2x'b + const with
   A the sum of the projectors I - dd'/|d|^2 and b the sum of the projected centers. *)
Projector(d) ==
    LET k == RRnd(RDiv(R1, NSq(d)))
        e(i, j) == (IF i = j THEN R1 ELSE R0) \ominus RRnd(k \otimes d[i] \otimes d[j])
        xy == e(1, 2)  xz == e(1, 3)  yz == e(2, 3)
    IN <<<<e(1, 1), xy, xz>>, <<xy, e(2, 2), yz>>, <<xz, yz, e(3, 3)>>>>
RECURSIVE NormalSum(_, _, _)           \* of the rays i..j, in halves
NormalSum(rays, i, j) ==
    IF i > j THEN <<ZeroM, Zero3>>
    ELSE IF i = j THEN LET q == Projector(rays[i][2]) IN <<q, MV(q, rays[i][1])>>
    ELSE LET h == (i + j) \div 2
             x == NormalSum(rays, i, h)
             y == NormalSum(rays, h + 1, j)
         IN <<MAdd(x[1], y[1]), VAdd(x[2], y[2])>>
Normal(rays) == NormalSum(rays, 1, Len(rays))
\* the solution of a x = b by Cramer's rule
Solve(a, b) ==
    LET d == Det(a)  t == Tr(a) IN
    <<RDiv(Det(Tr(<<b, t[2], t[3]>>)), d), RDiv(Det(Tr(<<t[1], b, t[3]>>)), d), RDiv(Det(Tr(<<t[1], t[2], b>>)), d)>>
\* squared distance of x from the line of a ray, and the sum over all rays
DistSq(ray, x) == LET v == VSub(x, ray[1]) IN Dot(v, MV(Projector(ray[2]), v))
RECURSIVE SumDistSq(_, _, _)
SumDistSq(rays, i, x) == IF i > Len(rays) THEN R0 ELSE DistSq(rays[i], x) \oplus SumDistSq(rays, i + 1, x)
Parallel(rays) == \A i \in DOMAIN rays : IsZeroV(Cross(rays[1][2], rays[i][2]))

-----------------------------------------------------------------------------
(* The seven entries of a normalized 3 x 4 intrinsic matrix (rows of 4, given as a sequence of
   12 numbers) which are fixed, and their values. *)
FixedEntries == <<<<4, 0>>, <<5, 0>>, <<8, 0>>, <<9, 0>>, <<10, 0>>, <<11, 1>>, <<12, 0>>>>

\* The pixel grid of the round trip utility: its columns, its rows, its pixels.
GridRange(size, step, border) ==
    IF size <= 2 * border THEN {}
    ELSE {border + i * step : i \in 0..((size - 2 * border + step - 1) \div step - 1)}
Grid(w, h, step, border) == GridRange(w, step, border) \X GridRange(h, step, border)
=============================================================================
