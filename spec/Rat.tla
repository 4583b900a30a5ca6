-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below give the meaning of every operator on fractions   *)
(* <<n, d>> with d > 0 over the (unbounded) integers.  TLC's own integers  *)
(* have 32 bits, which is not enough for the exact value of a binary64     *)
(* number, so when TLC evaluates this module it replaces each definition   *)
(* by the java.math.BigInteger implementation of spec/java/RatOverrides.   *)
(* There a rational is an opaque value in lowest terms, and R() also reads *)
(* numerals: "7", "-3/4", "12.5" and "m@e", which stands for m * 2^e (the  *)
(* form in which the harness records every binary32 / binary64 number).    *)
(* RatTest.tla checks that both agree.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pos(r) == IF r[2] < 0 THEN <<-r[1], -r[2]>> ELSE r

R(a)       == <<a, 1>>                                   \* an integer (or numeral)
RStr(a)    == a                                          \* canonical numeral of a
RAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
RSub(a, b) == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
RMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
RDiv(a, b) == Pos(<<a[1] * b[2], a[2] * b[1]>>)          \* b # 0
RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<IF a[1] < 0 THEN -a[1] ELSE a[1], a[2]>>
RSgn(a)    == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RLt(a, b)  == a[1] * b[2] <  b[1] * a[2]
REq(a, b)  == a[1] * b[2] =  b[1] * a[2]
RMax(a, b) == IF RLe(a, b) THEN b ELSE a

\* A rational within a relative distance of 2^-120 below the square root of a >= 0; the
\* exact square root when a is the square of a rational.
RSqrt(a) == CHOOSE s \in Int \X (Int \ {0}) : 
               /\ RSgn(s) >= 0
               /\ RLe(RMul(s, s), a)
               /\ RLe(RMul(a, RSub(R(1), R("1@-120"))), RMul(s, s))
\* Is the rational a the square of a rational?
RIsSquare(a) == \E s \in Int \X (Int \ {0}) : REq(RMul(s, s), a)

\* A rational within a relative distance of 2^-250 of a, with a short numeral.  (The
\* overriding definition rounds to 256 bits.)
RRnd(a) == a

\* Infix forms.  \oplus and \ominus associate to the left and bind weaker than
\* \otimes and \oslash (TLA+ precedences 10-10, 11-11, 13-13).
a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
=============================================================================
