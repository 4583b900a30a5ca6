-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Vectors <<x, y, z>> and matrices (tuples of rows) over the rationals.   *)
(***************************************************************************)
EXTENDS Rat

\* A number as it is recorded in a trace is a numeral of Rat, or one of these.
NonFinite == {"nan", "inf", "-inf"}
Fin(s)  == s \notin NonFinite
FinV(v) == \A i \in DOMAIN v : v[i] \notin NonFinite

V3(s) == <<R(s[1]), R(s[2]), R(s[3])>>             \* numerals to numbers
S3(v) == <<RStr(v[1]), RStr(v[2]), RStr(v[3])>>    \* and back
Rnd3(v) == <<RRnd(v[1]), RRnd(v[2]), RRnd(v[3])>>

R0 == R(0)
R1 == R(1)
Sq(a) == a \otimes a
Zero3 == <<R0, R0, R0>>
EX == <<R1, R0, R0>>
EY == <<R0, R1, R0>>
EZ == <<R0, R0, R1>>

VAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
VSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
VNeg(a)    == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
VScale(k, a) == <<k \otimes a[1], k \otimes a[2], k \otimes a[3]>>
Dot(a, b)  == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                 RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                 RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
N1(a)  == RAbs(a[1]) \oplus RAbs(a[2]) \oplus RAbs(a[3])      \* L1 norm
NSq(a) == Dot(a, a)                                          \* square of the L2 norm
VEq(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2]) /\ REq(a[3], b[3])
IsZeroV(a) == RSgn(a[1]) = 0 /\ RSgn(a[2]) = 0 /\ RSgn(a[3]) = 0

\* 3 x 3 matrices
MV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Tr(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
MTV(m, v) == MV(Tr(m), v)
MM(a, b) == LET t == Tr(b) IN
    <<<<Dot(a[1], t[1]), Dot(a[1], t[2]), Dot(a[1], t[3])>>,
      <<Dot(a[2], t[1]), Dot(a[2], t[2]), Dot(a[2], t[3])>>,
      <<Dot(a[3], t[1]), Dot(a[3], t[2]), Dot(a[3], t[3])>>>>
MAdd(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3])>>
MSub(a, b) == <<VSub(a[1], b[1]), VSub(a[2], b[2]), VSub(a[3], b[3])>>
MScale(k, a) == <<VScale(k, a[1]), VScale(k, a[2]), VScale(k, a[3])>>
MEq(a, b) == VEq(a[1], b[1]) /\ VEq(a[2], b[2]) /\ VEq(a[3], b[3])
Det(m) == Dot(m[1], Cross(m[2], m[3]))
Ident == <<EX, EY, EZ>>
ZeroM == <<Zero3, Zero3, Zero3>>
AbsV(a) == <<RAbs(a[1]), RAbs(a[2]), RAbs(a[3])>>
\* the sum of the absolute values of the six products of a determinant
CrossAbs(a, b) == <<RAdd(RMul(a[2], b[3]), RMul(a[3], b[2])),
                    RAdd(RMul(a[3], b[1]), RMul(a[1], b[3])),
                    RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
DetAbs(m) == Dot(AbsV(m[1]), CrossAbs(AbsV(m[2]), AbsV(m[3])))

(***************************************************************************)
(* The rotation matrix of the quaternion q = <<w, x, y, z>> # 0.           *)
(***************************************************************************)
Rot(q) ==
    LET w == q[1]  x == q[2]  y == q[3]  z == q[4]
        n  == Sq(w) \oplus Sq(x) \oplus Sq(y) \oplus Sq(z)
        k  == RDiv(R(2), n)
        xx == k \otimes Sq(x)  yy == k \otimes Sq(y)  zz == k \otimes Sq(z)
        xy == k \otimes x \otimes y  xz == k \otimes x \otimes z  yz == k \otimes y \otimes z
        wx == k \otimes w \otimes x  wy == k \otimes w \otimes y  wz == k \otimes w \otimes z
    IN <<<<R1 \ominus RAdd(yy, zz), xy \ominus wz, xz \oplus wy>>,
         <<xy \oplus wz, R1 \ominus RAdd(xx, zz), yz \ominus wx>>,
         <<xz \ominus wy, yz \oplus wx, R1 \ominus RAdd(xx, yy)>>>>
RotS(s) == Rot(<<R(s[1]), R(s[2]), R(s[3]), R(s[4])>>)
=============================================================================
