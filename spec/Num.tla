------------------------------- MODULE Num -------------------------------
(* IEEE double / complex scalars, written as strings "re" or "re,im".      *)
(* The operators below are declared here and evaluated by java/Num.java    *)
(* (a TLC module override), exactly as TLC's own Integers module is.       *)
EXTENDS Naturals, Sequences
LOCAL ANY == CHOOSE x \in {"0.0"} : TRUE
FAdd(a, b) == ANY
FSub(a, b) == ANY
FMul(a, b) == ANY
FDiv(a, b) == ANY
FNeg(a) == ANY
FConj(a) == ANY
FRe(a) == ANY
FIm(a) == ANY
FAbs(a) == ANY
FSqrt(a) == ANY
FExp(a) == ANY
FLog10(a) == ANY
FCos(a) == ANY
FSin(a) == ANY
FPow(a, b) == ANY
FMax(a, b) == ANY
FMin(a, b) == ANY
FLt(a, b) == FALSE
FLe(a, b) == FALSE
FEq(a, b) == FALSE
FIsNaN(a) == FALSE
FIsFinite(a) == FALSE
FClose(a, b, rtol, atol) == FALSE   \* |a-b| <= atol + rtol*max(|a|,|b|), per component
FFloor(a) == ANY
FRint(a) == ANY                     \* round half to even
FToInt(a) == 0                      \* truncation, as an integer
FOf(a) == ANY                       \* integer (or scalar) -> scalar
FSum(s) == ANY                      \* sum of a sequence of scalars
FVdot(s, t) == ANY                  \* sum of conj(s_i) * t_i
FDotU(s, t) == ANY                  \* sum of s_i * t_i
FMaxAbs(s) == ANY                   \* max |s_i|, 0 when empty
FSort(s) == <<>>                    \* ascending
FGe(a, b) == FLe(b, a)
FGt(a, b) == FLt(b, a)
==========================================================================
