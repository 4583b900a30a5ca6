-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Algebraic laws of what the sessions are judged by, for all numbers.     *)
(*                                                                         *)
(* Each law says that some rational functions of its variables are zero    *)
(* (or, in "view", positive as a sum of squares shows).  A polynomial of   *)
(* degree at most d[i] in its i-th variable which vanishes on a grid of    *)
(* d[i] + 1 values for each i is the zero polynomial.  So TLC, which goes  *)
(* through the whole grid in exact arithmetic, proves each law for all     *)
(* rational numbers, and with them for all real numbers.  A grid consists  *)
(* of 1, 2, 3 ..., where the denominators below do not vanish (a sum of    *)
(* squares, a focal length, a depth); multiplying by them only adds to the *)
(* degree.  Where they may vanish ("cramer"), the grid has room for the    *)
(* product with one more of them.  Where a law is linear in some variables *)
(* together, the grid for these is a basis, and also the origin if it is   *)
(* affine.  Points(law) gives the number of values of each variable.       *)
(***************************************************************************)
EXTENDS CamGeom, FiniteSets, TLC, IOUtils

D(x) == IOEnv.DEFECT = x
Prop == IOEnv.PROP

VARIABLES law, v        \* the values chosen so far, numbers 1, 2, 3 ...
vars == <<law, v>>

-----------------------------------------------------------------------------
(* law, for which properties, points per variable *)
Table == {
  <<"rotation",   {"C04", "C05", "C07", "C11"},  <<7, 7, 7, 7>>>>,                \* degree 6 (determinant)
  <<"inverse",    {"C04", "C07", "C09"},         <<5, 5, 5, 5, 7>>>>,             \* degree 4; affine in x and c
  <<"conjugate",  {"C05", "C07"},                <<3, 3, 3, 3>>>>,
  <<"length",     {"C07", "C18"},                <<5, 5, 5, 5, 5>>>>,
  <<"ray",        {"C10", "C11"},                <<10, 10, 2>>>>,                 \* multilinear
  <<"persp",      {"C01", "C02", "C09"},         <<4, 4, 3, 2, 2, 2, 2, 4>>>>,
  <<"perspback",  {"C01", "C02", "C08", "C23"},  <<4, 4, 3, 2, 2, 2, 2, 4>>>>,
  <<"ortho",      {"C03", "C09"},                <<3, 3, 2, 2, 2, 2, 2>>>>,
  <<"orthoback",  {"C03", "C08", "C23"},         <<3, 3, 2, 2, 2, 2, 2>>>>,
  <<"custx",      {"C08", "C21"},                <<4, 3, 4, 4, 3, 4>>>>,
  <<"custy",      {"C08", "C21"},                <<4, 3, 4, 4, 3, 4>>>>,
  <<"matrix",     {"C08", "C15", "C16"},         <<6, 10, 7>>>>,                  \* multilinear
  <<"scale",      {"C15", "C16"},                <<3, 3, 3, 3>>>>,
  <<"jacobian",   {"C17"},                       <<3, 3, 4, 3, 3, 4>>>>,
  <<"projector",  {"C13", "C14"},                <<7, 7, 7>>>>,
  <<"turned",     {"C14", "C23"},                <<9, 9, 9, 9>>>>,
  <<"distance",   {"C13", "C14"},                <<3, 3, 3, 5, 5, 5>>>>,
  <<"expand",     {"C13"},                       <<6, 3, 3, 3, 3, 3, 3>>>>,
  <<"cramer",     {"C13", "C23"},                <<3, 3, 3, 3, 3, 3, 3, 3, 3>>>>,
  <<"view",       {"C06"},                       <<5, 5, 5, 3, 3, 3>>>>,
  <<"distances",  {"C10"},                       <<5, 5, 5, 4, 3>>>>
}
Mine == {t \in Table : Prop \in t[2] \/ Prop = "all"}
Points(l) == (CHOOSE t \in Table : t[1] = l)[3]

Init == law \in {t[1] : t \in Mine} /\ v = <<>>
Next == /\ Len(v) < Len(Points(law))
        /\ \E x \in 1..Points(law)[Len(v) + 1] : v' = Append(v, x)
        /\ UNCHANGED law

-----------------------------------------------------------------------------
X(i) == R(v[i])
Vec(i) == <<X(i), X(i + 1), X(i + 2)>>
Quat == <<X(1), X(2), X(3), X(4)>>
Basis(i) == CASE i = 1 -> EX [] i = 2 -> EY [] i = 3 -> EZ [] OTHER -> Zero3
\* the i-th matrix with a single one
Single(i) == [r \in 1..3 |-> IF (i - 1) \div 3 + 1 = r THEN Basis(i - 3 * ((i - 1) \div 3)) ELSE Zero3]
Swapped(m) == <<m[1], m[3], m[2]>>
\* an exact projector (CamGeom's rounds to 250 bits)
P(d) ==
    LET k == IF D("unnormalized") THEN R1 ELSE RDiv(R1, NSq(d))
        e(i, j) == (IF i = j THEN R1 ELSE R0) \ominus k \otimes d[i] \otimes d[j]
    IN <<<<e(1, 1), e(1, 2), e(1, 3)>>, <<e(2, 1), e(2, 2), e(2, 3)>>, <<e(3, 1), e(3, 2), e(3, 3)>>>>
IsSame(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2])

Rotation == LET m == Rot(Quat) IN IsRotation(IF D("mirror") THEN Swapped(m) ELSE m)
Inverse ==
    LET m == Rot(Quat)
        c == IF v[5] \in 1..3 THEN Basis(v[5]) ELSE Zero3
        x == IF v[5] \in 4..6 THEN Basis(v[5] - 3) ELSE Zero3
        back == IF D("transpose") THEN VAdd(MV(m, ToCam(m, c, x)), c) ELSE ToWorld(m, c, ToCam(m, c, x))
    IN /\ VEq(back, x)
       /\ VEq(ToCam(m, c, ToWorld(m, c, x)), x)
       /\ VEq(CenterOf(m, Translation(m, c)), c)
       /\ VEq(ToCam(m, c, x), VAdd(MV(m, x), Translation(m, c)))
       /\ VEq(ToCam(m, c, c), Zero3)
Conjugate == LET q == Quat IN MEq(Rot(<<q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4])>>), Tr(Rot(q)))
Length_ == LET q == Quat  k == RNeg(X(5)) IN MEq(Rot(<<k \otimes q[1], k \otimes q[2], k \otimes q[3], k \otimes q[4]>>), Rot(q))
\* points of a ray stay on it
Ray ==
    LET m == Single(v[1])  t == X(3)
        b(k) == IF v[2] \in (3 * k + 1)..(3 * k + 3) THEN Basis(v[2] - 3 * k) ELSE Zero3
        c == b(0)  ray == <<b(1), b(2)>>
        w == RayToWorld(m, c, ray)
        w2 == IF D("moved") THEN <<w[1], VAdd(w[2], c)>> ELSE w
    IN VEq(OnRay(w2, t), ToWorld(m, c, OnRay(ray, t)))
\* pixel -> ray -> pixel, and point -> pixel -> ray
Forth(k, p, u, t) == IsSame(Project(k, p, OnRay(Unproject(k, p, u), t)), u)
Back(k, p, x) ==
    LET ray == Unproject(k, p, Project(k, p, x))
        y == OnRay(ray, IF SharedOrigin(k) THEN RDiv(x[3], ray[2][3]) ELSE x[3])
    IN VEq(x, y)
Pp == <<X(1), X(2), X(3), X(4), X(5)>>
Po == <<X(1), X(2), X(3), X(4)>>
Persp == Forth("persp", Pp, <<X(6), X(7)>>, X(8)) /\ (D("noskew") => Project("persp", [Pp EXCEPT ![3] = R0], Vec(6)) = Project("persp", Pp, Vec(6)))
PerspBack == Back("persp", Pp, Vec(6))
Ortho == Forth("ortho", Po, <<X(5), X(6)>>, X(7) \ominus R1)
OrthoBack == Back("ortho", Po, Vec(5))
\* the models that the harness adds: rays that do not pass the image plane in general position are left out
Custom(k) == LET p == <<X(1), X(2), X(3)>> IN Forth(k, p, <<X(4), X(5)>>, X(6))
\* K [R | t] x is what projecting in the camera frame divides
Matrix_ ==
    LET b(i, n) == IF n = i THEN R1 ELSE R0
        p == <<b(1, v[1]), b(2, v[1]), b(3, v[1]), b(4, v[1]), b(5, v[1])>>
        m == Single(v[2])
        c == IF v[3] \in 1..3 THEN Basis(v[3]) ELSE Zero3
        x == IF v[3] \in 4..6 THEN Basis(v[3] - 3) ELSE Zero3
        a == CamMatrix(p, m, c)
    IN VEq(VAdd(MV(a[1], x), IF D("column") THEN VNeg(a[2]) ELSE a[2]), MV(Intr(p), ToCam(m, c, x)))
Scale_ == LET k == X(4) \ominus R("5/2") IN
    IsSame(MatProject(ZeroM, VScale(k, Vec(1)), Zero3), MatProject(ZeroM, Vec(1), Zero3))
(* With h = A x homogeneous, u = h1 / h3: u(x + d) - u(x) = (J d) h3(x) / h3(x + d), and this is what the
   derivative of u is.  A change of the basis of space takes x and d to EX and EY, so that it is enough to
   look at two columns of A (the third one is of no consequence). *)
Jacobian_ ==
    LET m == <<<<X(1), X(4), R1>>, <<X(2), X(5), R0>>, <<X(3), X(6), R0>>>>
        p == <<R1, R1, R0, R0, R0>>
        q(x) == WorldToPixel("persp", p, m, Zero3, x)
        j == Jacobian(p, m, Zero3, EX)
        y == VAdd(EX, EY)
        s == RDiv(Dot(m[3], EX), IF D("tangent") THEN Dot(m[3], EX) ELSE Dot(m[3], y))
    IN /\ REq(q(y)[1] \ominus q(EX)[1], Dot(j[1], EY) \otimes s)
       /\ REq(q(y)[2] \ominus q(EX)[2], Dot(j[2], EY) \otimes s)
\* P(d) is the orthogonal projection along d
Projector_ ==
    LET d == Vec(1)  p == P(d) IN
    IsZeroV(MV(p, d)) /\ MEq(MM(p, p), p) /\ MEq(p, Tr(p)) /\ REq(RAdd(RAdd(p[1][1], p[2][2]), p[3][3]), R(2))
Turned == LET m == Rot(Quat) IN MEq(P(MTV(m, EZ)), MM(Tr(m), MM(P(EZ), m)))
\* it gives the distance from the line, by the area of a parallelogram
Distance ==
    LET x == Vec(1)  d == Vec(4) IN
    REq(Dot(x, MV(P(d), x)) \otimes NSq(d), NSq(Cross(x, d)))
\* the sum of squares has the gradient 2 (A x - b): it is least where A x = b, as A is positive
Expand ==
    LET s == CASE v[1] = 1 -> <<1, 1>> [] v[1] = 2 -> <<2, 2>> [] v[1] = 3 -> <<3, 3>>
               [] v[1] = 4 -> <<1, 2>> [] v[1] = 5 -> <<1, 3>> [] OTHER -> <<2, 3>>
        e(i, j) == IF {i, j} = {s[1], s[2]} /\ (i = j) = (s[1] = s[2]) THEN R1 ELSE R0
        p == <<<<e(1, 1), e(1, 2), e(1, 3)>>, <<e(2, 1), e(2, 2), e(2, 3)>>, <<e(3, 1), e(3, 2), e(3, 3)>>>>
        x == Vec(2)  d == Vec(5)  y == VAdd(x, d)
    IN REq(Dot(y, MV(p, y)), RAdd(Dot(x, MV(p, x)), RAdd(R(2) \otimes Dot(d, MV(p, x)), Dot(d, MV(p, d)))))
Cramer ==
    LET a == <<Vec(1), Vec(4), Vec(7)>>
        t == IF D("transpose") THEN Tr(a) ELSE a
    IN RSgn(Det(a)) # 0 => \A i \in 1..3 : VEq(MV(t, Solve(a, Basis(i))), Basis(i))
\* a camera that looks along f with up direction u: its axes, not normalized
View ==
    LET f == Vec(1)  u == Vec(4)  r == Cross(f, u)  dn == Cross(f, r)
        q == RSub(RMul(NSq(f), NSq(u)), Sq(Dot(f, u)))
    IN /\ RSgn(Dot(r, f)) = 0 /\ RSgn(Dot(dn, f)) = 0 /\ RSgn(Dot(r, dn)) = 0 /\ RSgn(Dot(r, u)) = 0
       /\ REq(q, NSq(r))                                      \* not negative, and zero only when u is along f
       /\ REq(Dot(dn, u), IF D("upside") THEN q ELSE RNeg(q))
       /\ REq(Det(<<r, dn, f>>), NSq(f) \otimes NSq(r))       \* right-handed
\* a point d units of length along the ray, when the length is rational (a Pythagorean quadruple)
Distances ==
    LET a == X(1)  b == X(2)  c == X(3)  n == RAdd(RAdd(Sq(a), Sq(b)), Sq(c))
        d == <<RSub(RAdd(Sq(a), Sq(b)), Sq(c)), R(2) \otimes a \otimes c, R(2) \otimes b \otimes c>>       \* |d| = n
        ray == <<Basis(v[4]), d>>  t == RSub(X(5), R("7/2"))
        y == AtDistance(ray, t)
    IN REq(NSq(d), Sq(n)) /\ REq(NSq(VSub(y, ray[1])), Sq(t)) /\ VEq(VSub(y, ray[1]), VScale(RDiv(t, n), d))

Holds == Len(v) = Len(Points(law)) =>
    CASE law = "rotation" -> Rotation [] law = "inverse" -> Inverse [] law = "conjugate" -> Conjugate
      [] law = "length" -> Length_ [] law = "ray" -> Ray [] law = "persp" -> Persp [] law = "perspback" -> PerspBack
      [] law = "ortho" -> Ortho [] law = "orthoback" -> OrthoBack
      [] law \in {"custx", "custy"} -> Custom(law)
      [] law = "matrix" -> Matrix_ [] law = "scale" -> Scale_ [] law = "jacobian" -> Jacobian_
      [] law = "projector" -> Projector_ [] law = "turned" -> Turned [] law = "distance" -> Distance
      [] law = "expand" -> Expand [] law = "cramer" -> Cramer [] law = "view" -> View [] law = "distances" -> Distances
=============================================================================
