---------------------------------- MODULE Rl ----------------------------------
(***************************************************************************)
(* Real numbers for the specifications.                                    *)
(*                                                                         *)
(* The specified system computes with metres, dBm, radians and seconds.    *)
(* TLC itself only has 32-bit integers, so a real is written as a decimal  *)
(* string ("0.25", "-81.5") or as an integer, and the operators below are  *)
(* evaluated by the module override lib/RlOverrides.java (IEEE doubles).   *)
(* Every conformance comparison uses Near with an explicit tolerance, so   *)
(* the last bits of a double never decide anything.                        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL Undef == CHOOSE x \in {} : TRUE

RAdd(a, b) == Undef
RSub(a, b) == Undef
RMul(a, b) == Undef
RDiv(a, b) == Undef
RMin(a, b) == Undef
RMax(a, b) == Undef
RLt(a, b)  == Undef
RLe(a, b)  == Undef
REq(a, b)  == Undef
RNeg(a)    == Undef
RAbs(a)    == Undef
RSqrt(a)   == Undef
RExp(a)    == Undef
RLn(a)     == Undef
RSin(a)    == Undef
RCos(a)    == Undef
RAsin(a)   == Undef
RFloor(a)  == Undef      \* real -> real
RPow(a, b) == Undef
RAtan2(a, b) == Undef
RIsFinite(a) == Undef
RTrunc(a)  == Undef      \* real -> Int, towards zero (a C cast)
RSum(s)    == Undef      \* sum of a sequence of reals
RStr(a)    == Undef      \* canonical text of a real
SLt(a, b)  == Undef      \* order of names (bytes)

RPi == "3.141592653589793"

a ++ b  == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLe(b, a)

\* |a-b| <= tol ; false when either is not a number
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* relative/absolute closeness for quantities of any magnitude
NearRel(a, b, rel) == RLe(RAbs(RSub(a, b)), RMul(rel, RMax("1.0", RMax(RAbs(a), RAbs(b)))))
Clamp(v, lo, hi) == RMin(RMax(v, lo), hi)
Hyp(x, y) == RSqrt(RAdd(RMul(x, x), RMul(y, y)))
Dist2(ax, ay, bx, by) == Hyp(RSub(ax, bx), RSub(ay, by))
Sec(ms) == RDiv(ms, "1000.0")
MsOf(sec) == RTrunc(RMul("1000.0", sec))
===============================================================================
