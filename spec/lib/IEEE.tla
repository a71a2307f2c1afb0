------------------------------- MODULE IEEE -------------------------------
(* IEEE-754 double precision arithmetic for TLA+.                             *)
(*                                                                            *)
(* A double is the tuple <<hi, lo>> of the two 32-bit halves of its bit       *)
(* pattern, so doubles are plain TLA+ values: they can be parts of states and *)
(* are read from recorded traces without loss. The primitive operators have   *)
(* no TLA+ definition worth evaluating; TLC evaluates them by the Java class  *)
(* IEEEOverrides (spec/java). The ASSUMEs at the end fail if they were not    *)
(* overridden or if they misbehave.                                           *)
EXTENDS Integers, Sequences, TLC

NotOverridden == CHOOSE x \in {} : TRUE
RAdd(a, b) == NotOverridden
RSub(a, b) == NotOverridden
RMul(a, b) == NotOverridden
RDiv(a, b) == NotOverridden
RNeg(a)    == NotOverridden
RAbs(a)    == NotOverridden
RSqrt(a)   == NotOverridden
RSin(a)    == NotOverridden
RCos(a)    == NotOverridden
RTan(a)    == NotOverridden
RAcos(a)   == NotOverridden
RAtan2(y, x) == NotOverridden
RExp(a)    == NotOverridden
RLog(a)    == NotOverridden
RPow(a, b) == NotOverridden
RFloor(a)  == NotOverridden
RMax(a, b) == NotOverridden
RMin(a, b) == NotOverridden
RLt(a, b)  == NotOverridden
RLe(a, b)  == NotOverridden
REq(a, b)  == NotOverridden          \* numeric equality (0 = -0, NaN # NaN)
RIsNaN(a)  == NotOverridden
RIsFinite(a) == NotOverridden
RInt(n)    == NotOverridden          \* Int -> double
RTrunc(a)  == NotOverridden          \* double -> Int
RLit(s)    == NotOverridden          \* decimal literal -> double
RText(a)   == NotOverridden          \* double -> decimal literal
RRound(a, n) == NotOverridden        \* the double nearest to a rounded to n decimals

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
R3 == RInt(3)
R4 == RInt(4)
RHalf == RLit("0.5")
RPi == RLit("3.1415926535897932")
RDeg == RPi (/) RInt(180)            \* one degree in radians
RSq(a) == a (.) a
Rad(deg) == deg (.) RDeg
Deg(rad) == rad (/) RDeg
Sgn(a) == IF R0 \prec a THEN 1 ELSE IF a \prec R0 THEN -1 ELSE 0

RSum(s)    == NotOverridden          \* sum of a sequence of doubles (0 if empty)
RMaxAbs(s) == NotOverridden          \* largest finite magnitude in a sequence (0 if empty)
RDot(s, t) == NotOverridden          \* inner product of two sequences of the same length
Vec(s) == TLCEval(s)                 \* evaluate a sequence eagerly

(* |a - b| <= tol * max(|a|, |b|, scale); two NaNs are close, NaN and a number are not *)
Within(a, b, e) == RAbs(a (-) b) \preceq e
CloseTo(a, b, scale, tol) ==
    \/ Within(a, b, tol (.) RMax(RMax(RAbs(a), RAbs(b)), RAbs(scale)))
    \/ RIsNaN(a) /\ RIsNaN(b)
Tol9 == RLit("1e-9")
Close(a, b, scale) == CloseTo(a, b, scale, Tol9)
SameBits(a, b) == a = b
Inf == RLit("Infinity")
R10 == RInt(10)
Eps(n) == RLit(IF n = 9 THEN "1e-9" ELSE IF n = 6 THEN "1e-6" ELSE IF n = 12 THEN "1e-12" ELSE IF n = 14 THEN "1e-14" ELSE "1e-3")

ASSUME /\ RLit("0.1") (+) RLit("0.2") = RLit("0.30000000000000004")
       /\ RDiv(R1, R0) = RLit("Infinity") /\ RIsNaN(RDiv(R0, R0))
       /\ RText(RSqrt(R2)) = "1.4142135623730951"
       /\ Sgn(RNeg(R1)) = -1 /\ ~(R1 \prec R1) /\ R1 \preceq R1
       /\ RTrunc(RFloor(RLit("-1.5"))) = -2 /\ RRound(RLit("0.12345651"), 6) = RLit("0.123457")
=============================================================================
