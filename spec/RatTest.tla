------------------------------ MODULE RatTest ------------------------------
(***************************************************************************)
(* The Java evaluation of module Rat agrees with the definitions of Rat.   *)
(* P is a second instance of the definitions, under another module name    *)
(* (RatPure, a copy that bin/vlib.py derives from Rat.tla), which TLC       *)
(* evaluates as written.  Compared on all pairs of fractions with a small  *)
(* numerator and denominator; larger magnitudes through algebraic laws.    *)
(***************************************************************************)
EXTENDS Rat, TLC
P == INSTANCE RatPure
VARIABLE x

Fracs == {<<n, d>> : n \in -7..7, d \in {1, 2, 3, 5, 8}}
J(f) == RDiv(R(f[1]), R(f[2]))            \* a fraction as a Java rational
Same(j, f) == REq(j, J(f))
Big == {R("1@-1074"), R("-9007199254740991@971"), R("12345678901234567890/98765432109876543211"), R("0.1"), R("-3/7"), R(0)}

Init == x \in Fracs
Next == UNCHANGED x
Agree == \A y \in Fracs :
    /\ Same(RAdd(J(x), J(y)), P!RAdd(x, y))
    /\ Same(RSub(J(x), J(y)), P!RSub(x, y))
    /\ Same(RMul(J(x), J(y)), P!RMul(x, y))
    /\ y[1] # 0 => Same(RDiv(J(x), J(y)), P!RDiv(x, y))
    /\ RLe(J(x), J(y)) = P!RLe(x, y)
    /\ RLt(J(x), J(y)) = P!RLt(x, y)
    /\ REq(J(x), J(y)) = P!REq(x, y)
    /\ Same(RMax(J(x), J(y)), P!RMax(x, y))
    /\ Same(RNeg(J(x)), P!RNeg(x))
    /\ Same(RAbs(J(x)), P!RAbs(x))
    /\ RSgn(J(x)) = P!RSgn(x)
    /\ RIsSquare(RMul(J(x), J(x)))
    /\ REq(RSqrt(RMul(J(x), J(x))), RAbs(J(x)))
    /\ (J(x) \oplus J(y) \otimes J(x)) = RAdd(J(x), RMul(J(y), J(x)))
Laws ==
  \A a, b \in Big :
    /\ REq(RSub(RAdd(a, b), b), a)
    /\ RSgn(b) # 0 => REq(RMul(RDiv(a, b), b), a)
    /\ REq(R(RStr(a)), a)
    /\ RLe(RAbs(RSub(RRnd(a), a)), RMul(RAbs(a), R("1@-250")))
    /\ LET q == RAbs(a) s == RSqrt(q) IN
         /\ RLe(RMul(s, s), q)
         /\ RLe(RMul(q, RSub(R(1), R("1@-120"))), RMul(s, s))
    /\ RLt(a, b) = ~RLe(b, a)
    /\ RSgn(RSub(a, b)) = IF RLt(a, b) THEN -1 ELSE IF REq(a, b) THEN 0 ELSE 1
Numerals == /\ REq(R("12.5"), RDiv(R(25), R(2)))
            /\ REq(R("-3@-2"), RDiv(R(-3), R(4)))
            /\ REq(R("-6/8"), RDiv(R(-3), R(4)))
            /\ ~RIsSquare(R(2)) /\ ~RIsSquare(R("-1"))
ASSUME Laws
ASSUME Numerals
=============================================================================
