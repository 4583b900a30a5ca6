-------------------------------- MODULE Meet --------------------------------
(***************************************************************************)
(* The design: where rays meet, in exact arithmetic.                       *)
(*                                                                         *)
(* Rays are chosen from a catalog, or cast from several cameras at one     *)
(* point.  They are then changed in ways that leave their lines, or the    *)
(* configuration of their lines, alone.  The ghost variable best is where  *)
(* they met at first.                                                      *)
(***************************************************************************)
EXTENDS CamGeom, FiniteSets, TLC, IOUtils

Large == IOEnv.SIZE = "large"
D(x) == IOEnv.DEFECT = x

VARIABLES rays,    \* numerals
          best,    \* ghost: the solution for these lines, moved along; <<>> when the rays are parallel
          target,  \* ghost: the point that the rays were cast at, or <<>>
          fuel
vars == <<rays, best, target, fuel>>

-----------------------------------------------------------------------------
(* The normal equations without rounding: the same as in CamGeom but for the roundings there. *)
ExactProjector(d) ==
    LET k == RDiv(R1, IF D("unnormalized") THEN R1 ELSE NSq(d))
        e(i, j) == (IF i = j THEN R1 ELSE R0) \ominus k \otimes d[i] \otimes d[j]
    IN <<<<e(1, 1), e(1, 2), e(1, 3)>>, <<e(2, 1), e(2, 2), e(2, 3)>>, <<e(3, 1), e(3, 2), e(3, 3)>>>>
RECURSIVE ExactSum(_, _, _, _)
ExactSum(rs, i, a, b) ==
    IF i > Len(rs) THEN <<a, b>>
    ELSE LET q == ExactProjector(rs[i][2]) IN ExactSum(rs, i + 1, MAdd(a, q), VAdd(b, MV(q, rs[i][1])))
ExactNormal(rs) == ExactSum(rs, IF D("dropfirst") THEN 2 ELSE 1, ZeroM, Zero3)

(* Squared distance from a line: by the area of a parallelogram, which is another formula than CamGeom's *)
Dist2(r, x) == RDiv(NSq(Cross(VSub(x, r[1]), r[2])), NSq(r[2]))
RECURSIVE Sum2(_, _, _)
Sum2(rs, i, x) == IF i > Len(rs) THEN R0 ELSE Dist2(rs[i], x) \oplus Sum2(rs, i + 1, x)

-----------------------------------------------------------------------------
(* Catalogs *)
N(r) == <<S3(r[1]), S3(r[2])>>
Num(s) == <<V3(s[1]), V3(s[2])>>
Rs == TLCEval([i \in DOMAIN rays |-> Num(rays[i])])
Z == "0"
Rays == {<<<<Z, Z, Z>>, <<"1", Z, Z>>>>, <<<<Z, Z, "1">>, <<Z, "2", Z>>>>, <<<<"1", "2", "3">>, <<"1", "1", "1">>>>,
         <<<<"-4", Z, "5">>, <<"-2", "-2", "-2">>>>}
        \cup IF Large THEN {<<<<"1/2", "7", Z>>, <<"3", Z, "-4">>>>, <<<<"100", "-50", "3">>, <<"1", "1", "1@-6">>>>} ELSE {}
Rots == {Ident, Rot(<<R(1), R(1), R0, R0>>), Rot(<<R(1), R(2), R(3), R(4)>>), Rot(<<R0, R(1), R(1), R0>>)}
Cams == {<<m, c>> : m \in Rots, c \in {Zero3, <<R(3), R(-1), R(1)>>}}
Points == {<<R(1), R(2), R(5)>>, <<R("1/3"), R(-4), R("0.5")>>}
Pp == <<R(100), R(102), R("1/2"), R(321), R("239.9")>>
Po == <<R(100), R(102), R(321), R("239.9")>>
Sees(k, m, c, x) == k = "ortho" \/ RSgn(ToCam(m, c, x)[3]) # 0
Shot(k, m, c, x) == LET p == IF k = "persp" THEN Pp ELSE Po IN N(PixelToWorld(k, p, m, c, WorldToPixel(k, p, m, c, x)))

-----------------------------------------------------------------------------
Sol(rs) == LET nm == ExactNormal(rs) IN Solve(nm[1], nm[2])
Lists == {<<a, b>> : a, b \in Rays} \cup {<<a, b, c>> : a, b, c \in Rays}
Init == /\ fuel = IF Large THEN 2 ELSE 1
        /\ \/ /\ rays \in Lists
              /\ target = <<>>
           \/ \E x \in Points : \E a \in Cams, b \in Cams, k, l \in {"persp", "ortho"} :
                 /\ Sees(k, a[1], a[2], x) /\ Sees(l, b[1], b[2], x)
                 /\ rays = <<Shot(k, a[1], a[2], x), Shot(l, b[1], b[2], x)>>
                 /\ target = S3(x)
        /\ best = IF Parallel(Rs) THEN <<>> ELSE S3(Sol(Rs))

Burn == fuel > 0 /\ fuel' = fuel - 1
Lines(rs) == rays' = rs /\ UNCHANGED <<best, target>>
Stretch == Burn /\ \E i \in DOMAIN rays, k \in {"-1", "3", "-1/5"} : Lines([rays EXCEPT ![i][2] = S3(VScale(R(k), V3(@)))])
Slide   == Burn /\ \E i \in DOMAIN rays, t \in {"1", "-7/2"} : Lines([rays EXCEPT ![i][1] = S3(VAdd(V3(@), VScale(R(t), V3(rays[i][2]))))])
Swap    == Burn /\ \E i, j \in DOMAIN rays : i < j /\ Lines([rays EXCEPT ![i] = rays[j], ![j] = rays[i]])
Move    == Burn /\ \E k \in Cams :
              /\ rays' = [i \in DOMAIN rays |-> N(RayToWorld(k[1], k[2], Rs[i]))]
              /\ best' = IF best = <<>> THEN <<>> ELSE S3(ToWorld(k[1], k[2], V3(best)))
              /\ target' = IF target = <<>> THEN <<>> ELSE S3(ToWorld(k[1], k[2], V3(target)))
Next == Stretch \/ Slide \/ Swap \/ Move

-----------------------------------------------------------------------------
\* C14: the solution depends on the lines only, and moves with them
SameSolution == IF Parallel(Rs) THEN best = <<>> ELSE best # <<>> /\ VEq(Sol(Rs), V3(best))
\* C13: there is one solution when not all rays are parallel, and the sum of squares is least there
Near_ == {<<a, b, c>> : a, b, c \in {"-1@-4", "0", "1@-4"}} \cup {<<"5", "-3", "1">>, <<"0", "0", "1@8">>}
Least == ~Parallel(Rs) =>
    LET x == Sol(Rs)  nm == ExactNormal(Rs)  f == Sum2(Rs, 1, x) IN
    /\ RSgn(Det(nm[1])) > 0
    /\ VEq(MV(nm[1], x), nm[2])
    /\ \A d \in Near_ : IsZeroV(V3(d)) \/ RLt(f, Sum2(Rs, 1, VAdd(x, V3(d))))
\* parallel rays: the normal equations are singular along the rays, and the points at which the gradient
\* vanishes are the minima
Flat == Parallel(Rs) =>
    LET nm == ExactNormal(Rs)  d == Rs[1][2]
        mean == VScale(RDiv(R1, R(Len(Rs))), nm[2])       \* the mean of the feet of the origin
    IN /\ IsZeroV(MV(nm[1], d))
       /\ VEq(MV(nm[1], mean), nm[2])
       /\ \A e \in Near_ : RLe(Sum2(Rs, 1, mean), Sum2(Rs, 1, VAdd(mean, V3(e))))
\* the roundings in CamGeom are without consequence, and both distances are the same
Agrees == LET nm == ExactNormal(Rs)  ap == Normal(Rs)  e == R("1@-200") IN
    /\ \A i, j \in 1..3 : RLe(RAbs(nm[1][i][j] \ominus ap[1][i][j]), e)
    /\ \A i \in 1..3 : RLe(RAbs(nm[2][i] \ominus ap[2][i]), e)
    /\ \A x \in {Zero3, <<R(1), R(-5), R(2)>>} : RLe(RAbs(SumDistSq(Rs, 1, x) \ominus Sum2(Rs, 1, x)), e \otimes R("1@20"))
\* C23: rays cast at a point meet there
Meets == target # <<>> /\ ~Parallel(Rs) => VEq(Sol(Rs), V3(target)) /\ RSgn(Sum2(Rs, 1, V3(target))) = 0
=============================================================================
