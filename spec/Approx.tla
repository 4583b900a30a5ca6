------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* Which floating point results are acceptable for an exact value.         *)
(*                                                                         *)
(* Every bound is stated against the sum of the magnitudes of the terms    *)
(* that enter the value (so that cancellation is accounted for), times     *)
(* Eps, which leaves room for about 2^12 (binary64) or 2^10 (binary32)     *)
(* units in the last place: far more than any reasonable way of evaluating *)
(* the formulas needs, far less than any change of the formulas makes.     *)
(* Quotients are compared after multiplication with the denominator.       *)
(* w is the width of the numbers, "f64" or "f32".                          *)
(***************************************************************************)
EXTENDS CamGeom

Eps(w)   == IF w = "f64" THEN R("1@-40")   ELSE R("1@-14")
Floor(w) == IF w = "f64" THEN R("1@-600")  ELSE R("1@-100")
Hi(w)    == IF w = "f64" THEN R("1@120")   ELSE R("1@22")
Lo(w)    == IF w = "f64" THEN R("1@-120")  ELSE R("1@-22")

\* Properties about values are claimed for numbers of which products of a few neither
\* overflow nor underflow.
InDom(w, s) == Fin(s) /\ LET a == RAbs(R(s)) IN RSgn(a) = 0 \/ (RLe(Lo(w), a) /\ RLe(a, Hi(w)))
InDomV(w, v) == \A i \in DOMAIN v : InDom(w, v[i])

\* | x | <= Eps * s
Small(w, x, s) == RLe(RAbs(x), RAdd(RMul(Eps(w), s), Floor(w)))
\* the numeral o is x, to a precision given by the scale s
Near(w, o, x, s) == Fin(o) /\ Small(w, RSub(R(o), x), s)
Near3(w, o, x, s) == Near(w, o[1], x[1], s) /\ Near(w, o[2], x[2], s) /\ Near(w, o[3], x[3], s)
NearM(w, o, m, s) ==    \* o: 9 numerals, row by row
    /\ Near3(w, <<o[1], o[2], o[3]>>, m[1], s)
    /\ Near3(w, <<o[4], o[5], o[6]>>, m[2], s)
    /\ Near3(w, <<o[7], o[8], o[9]>>, m[3], s)
MNear(w, a, b) == \A i \in 1..3 : \A j \in 1..3 : Small(w, RSub(a[i][j], b[i][j]), R1)
\* The vector d has the direction (and sense) of the vector x, each component of which is
\* known to Eps * s.
SameDir(w, d, x, s) ==
    /\ RSgn(Dot(d, x)) > 0
    /\ LET k == Cross(d, x)  t == RMul(s, N1(d)) IN Small(w, k[1], t) /\ Small(w, k[2], t) /\ Small(w, k[3], t)

\* significantly different from zero, when it is known to Eps * s
Significant(w, x, s) == RLt(RMul(RMul(R(1024), Eps(w)), s), RAbs(x))

-----------------------------------------------------------------------------
(* Pixels.  x is a point in camera coordinates, known to Eps * s in each coordinate (s >= N1(x));
   o the observed pixel.  PixelDom: is the pixel well defined? *)
PixelDom(w, k, p, x, s) ==
    CASE k = "persp" -> Significant(w, x[3], s)
      [] k = "custx" -> Significant(w, x[3] \oplus RMul(p[3], x[1]), RMul(s, R1 \oplus RAbs(p[3])))
      [] OTHER -> TRUE
PixelNear(w, k, p, x, s, o) ==
    /\ FinV(o)
    /\ LET u == R(o[1])  v == R(o[2]) IN
       CASE k = "persp" ->
              LET fu == RAbs(p[1]) \oplus RAbs(p[3]) \oplus RAbs(p[4])
                  fv == RAbs(p[2]) \oplus RAbs(p[5])
              IN /\ Small(w, Dot(<<p[1], p[3], p[4] \ominus u>>, x), (fu \oplus RAbs(u)) \otimes s)
                 /\ Small(w, Dot(<<R0, p[2], p[5] \ominus v>>, x), (fv \oplus RAbs(v)) \otimes s)
         [] k = "ortho" ->
              /\ Small(w, (p[1] \otimes x[1] \oplus p[3]) \ominus u, RAbs(p[1]) \otimes s \oplus RAbs(p[3]))
              /\ Small(w, (p[2] \otimes x[2] \oplus p[4]) \ominus v, RAbs(p[2]) \otimes s \oplus RAbs(p[4]))
         [] k = "custx" ->
              LET g == RAbs(p[3])
                  d == RAbs(x[3] \oplus p[3] \otimes x[1])
                  q == RDiv(RAbs(x[1]), d)  r == RDiv(RAbs(x[2]), d)
                  dq == RDiv(s, d) \otimes (R1 \oplus q \otimes (R1 \oplus g)) \oplus q
                  dr == RDiv(s, d) \otimes (R1 \oplus r \otimes (R1 \oplus g)) \oplus r
                  e == Project(k, p, x)
              IN /\ Small(w, e[1] \ominus u, RAbs(p[1]) \oplus dq)
                 /\ Small(w, e[2] \ominus v, RAbs(p[2]) \oplus dr \oplus g \otimes q \otimes dq \otimes R(4))
         [] k = "custy" ->
              LET g == RAbs(p[3])  e == Project(k, p, x) IN
              /\ Small(w, e[1] \ominus u, RAbs(p[1]) \oplus s)
              /\ Small(w, e[2] \ominus v, RAbs(p[2]) \oplus s \oplus R(4) \otimes g \otimes Sq(s))

\* The projection of a point in camera coordinates itself, where the scale of every term is known.
PixelOfPoint(w, k, p, x, o) ==
    IF k = "persp" THEN
        /\ FinV(o)
        /\ LET u == R(o[1])  v == R(o[2]) IN
           /\ Small(w, Dot(<<p[1], p[3], p[4] \ominus u>>, x), Dot(AbsV(<<p[1], p[3], p[4]>>), AbsV(x)) \oplus RAbs(u \otimes x[3]))
           /\ Small(w, Dot(<<R0, p[2], p[5] \ominus v>>, x), Dot(AbsV(<<R0, p[2], p[5]>>), AbsV(x)) \oplus RAbs(v \otimes x[3]))
    ELSE PixelNear(w, k, p, x, N1(x), o)
PixelOfPointDom(w, k, p, x) ==
    CASE k = "persp" -> RSgn(x[3]) # 0
      [] OTHER -> PixelDom(w, k, p, x, N1(x))

-----------------------------------------------------------------------------
(* Rays of pixels.  u is a pixel; d a direction in camera coordinates (for models whose rays share
   the origin) or a center (for models whose rays share the direction), each coordinate of which
   is known to Eps * s. *)
RayDom(w, k, p, u) ==
    /\ Invertible(k, p)
    /\ k \in {"persp", "custx"} =>
          LET d == Unproject(k, p, u)[2] IN Significant(w, d[3], N1(d))
\* how precisely a pixel is reproduced, per unit of depth
PixU(k, p, u) == CASE k = "persp" -> RAbs(u[1]) \oplus RAbs(p[4]) \oplus RDiv(RAbs(p[3]) \otimes (RAbs(u[2]) \oplus RAbs(p[5])), RAbs(p[2]))
                   [] k = "ortho" -> RAbs(u[1]) \oplus RAbs(p[3])
                   [] OTHER -> RAbs(u[1]) \oplus RAbs(p[1])
PixV(k, p, u) == CASE k = "persp" -> RAbs(u[2]) \oplus RAbs(p[5])
                   [] k = "ortho" -> RAbs(u[2]) \oplus RAbs(p[4])
                   [] OTHER -> RAbs(u[2]) \oplus RAbs(p[2]) \oplus RAbs(p[3]) \otimes Sq(RAbs(u[1]) \oplus RAbs(p[1]))
RayNear(w, k, p, u, d, s) ==
    CASE k = "persp" ->
           LET fu == RAbs(p[1]) \oplus RAbs(p[3]) \oplus RAbs(p[4]) \oplus RAbs(u[1])
               fv == RAbs(p[2]) \oplus RAbs(p[5]) \oplus RAbs(u[2])
           IN /\ RSgn(d[3]) > 0
              /\ Small(w, Dot(<<p[1], p[3], p[4] \ominus u[1]>>, d), PixU(k, p, u) \otimes d[3] \oplus fu \otimes s)
              /\ Small(w, Dot(<<R0, p[2], p[5] \ominus u[2]>>, d), PixV(k, p, u) \otimes d[3] \oplus fv \otimes s)
      [] k = "ortho" ->
           /\ Small(w, (p[1] \otimes d[1] \oplus p[3]) \ominus u[1], PixU(k, p, u) \oplus RAbs(p[1]) \otimes s)
           /\ Small(w, (p[2] \otimes d[2] \oplus p[4]) \ominus u[2], PixV(k, p, u) \oplus RAbs(p[2]) \otimes s)
           /\ Small(w, d[3], s)
      [] k = "custx" ->
           LET e == Unproject(k, p, u)[2]
               m == N1(e) \oplus PixU(k, p, u) \otimes (R1 \oplus RAbs(p[3])) \oplus PixV(k, p, u) \oplus R1
           IN SameDir(w, d, e, R(4) \otimes m \oplus s)
      [] k = "custy" ->
           LET e == Unproject(k, p, u)[1]
           IN LET z == VSub(d, e)  t == R(4) \otimes (PixU(k, p, u) \oplus PixV(k, p, u)) \oplus s
              IN Small(w, z[1], t) /\ Small(w, z[2], t) /\ Small(w, z[3], s)

-----------------------------------------------------------------------------
(* Points on rays.  ray = <<center, direction>>; the center is known to Eps * s. *)
\* somewhere on the ray, and not behind its center
OnRayNear(w, ray, s, o) ==
    /\ FinV(o)
    /\ LET v == VSub(V3(o), ray[1])
           d == ray[2]
           k == Cross(v, d)
           t == RMul(s \oplus N1(V3(o)), N1(d))
       IN /\ Small(w, k[1], t) /\ Small(w, k[2], t) /\ Small(w, k[3], t)
          /\ \/ RSgn(Dot(v, d)) > 0
             \/ ~Significant(w, N1(d), s \oplus N1(V3(o)))
AtDistanceNear(w, ray, s, dist, o) == Near3(w, o, AtDistance(ray, dist), s \oplus RAbs(dist))

-----------------------------------------------------------------------------
(* The best intersection.  The normal equations have magnitudes of rounding errors only in their
   right hand side, and a solver may lose digits in the ratio of the greatest to the smallest
   eigenvalue of the matrix, which is at most n / (det / n^2). *)
IsectEps(w) == IF w = "f64" THEN R("1@-18") ELSE R("1@-14")
RECURSIVE MaxN1(_, _, _)
MaxN1(rays, i, j) ==
    IF i > j THEN R0
    ELSE IF i = j THEN N1(rays[i][1])
    ELSE LET h == (i + j) \div 2 IN RMax(MaxN1(rays, i, h), MaxN1(rays, h + 1, j))
IsectScale(rays) == MaxN1(rays, 1, Len(rays))
\* a lower bound of the smallest eigenvalue divided by the number of rays
IsectCond(rays, a) == LET n == R(Len(rays)) IN RDiv(Det(a), n \otimes n \otimes n)
IsectDom(w, rays, a) == RLe(IF w = "f64" THEN R("1@-20") ELSE R("1@-9"), IsectCond(rays, a))
IsectTol(w, rays, a) ==
    LET s == IsectScale(rays) IN
    (IsectEps(w) \otimes s \oplus RDiv(RMul(s, IF w = "f64" THEN R("1@-38") ELSE R("1@-16")), IsectCond(rays, a))) \oplus Floor(w)

-----------------------------------------------------------------------------
(* Camera matrices. a, b: the exact 3 x 3 matrix and column; o: 12 numerals, row by row. *)
Row(o, i) == <<o[4 * i - 3], o[4 * i - 2], o[4 * i - 1]>>
Col(o) == <<o[4], o[8], o[12]>>
\* the observed matrix is lambda times the exact one, the entries of row i of which are known to
\* Eps * f[i], and those of the column to Eps * f[i] * s
MatNear(w, o, a, b, f, s, lambda) ==
    /\ RSgn(lambda) # 0
    /\ LET l == RAbs(lambda) IN
       \A i \in 1..3 :
         /\ Near3(w, Row(o, i), VScale(lambda, a[i]), l \otimes f[i])
         /\ Near(w, Col(o)[i], lambda \otimes b[i], l \otimes f[i] \otimes s)

-----------------------------------------------------------------------------
(* A pixel u was projected back to a ray, a point x of that ray (camera coordinates, known to
   Eps * s) was projected again, and o was observed. *)
RoundTripNear(w, k, p, u, x, s, o) ==
    /\ FinV(o)
    /\ LET du == R(o[1]) \ominus u[1]  dv == R(o[2]) \ominus u[2] IN
       CASE k = "persp" ->
              LET fu == RAbs(p[1]) \oplus RAbs(p[3]) \oplus RAbs(p[4]) \oplus RAbs(u[1])
                  fv == RAbs(p[2]) \oplus RAbs(p[5]) \oplus RAbs(u[2])
              IN /\ Small(w, du \otimes x[3], R(8) \otimes (PixU(k, p, u) \otimes RAbs(x[3]) \oplus fu \otimes s))
                 /\ Small(w, dv \otimes x[3], R(8) \otimes (PixV(k, p, u) \otimes RAbs(x[3]) \oplus fv \otimes s))
         [] k = "custx" ->
              LET g == RAbs(p[3])
                  d == RAbs(x[3] \oplus p[3] \otimes x[1])
                  q == RDiv(RAbs(x[1]), d)  r == RDiv(RAbs(x[2]), d)
                  dq == RDiv(s, d) \otimes (R1 \oplus q \otimes (R1 \oplus g)) \oplus q
                  dr == RDiv(s, d) \otimes (R1 \oplus r \otimes (R1 \oplus g)) \oplus r
              IN /\ Small(w, du, R(16) \otimes (PixU(k, p, u) \oplus dq))
                 /\ Small(w, dv, R(16) \otimes (PixV(k, p, u) \oplus dr \oplus g \otimes (q \oplus PixU(k, p, u)) \otimes (dq \oplus PixU(k, p, u))))
         [] k = "ortho" ->
              /\ Small(w, du, R(8) \otimes (PixU(k, p, u) \oplus RAbs(p[1]) \otimes s))
              /\ Small(w, dv, R(8) \otimes (PixV(k, p, u) \oplus RAbs(p[2]) \otimes s))
         [] k = "custy" ->
              /\ Small(w, du, R(8) \otimes (PixU(k, p, u) \oplus s))
              /\ Small(w, dv, R(16) \otimes (PixV(k, p, u) \oplus s \oplus RAbs(p[3]) \otimes Sq(s)))
=============================================================================
