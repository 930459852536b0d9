-------------------------------- MODULE Dbl --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 values as TLA+ strings: "#" followed by the 16 hex    *)
(* digits of the bit pattern (what the harness logs), or a plain decimal   *)
(* numeral such as "0.5" (what the specification writes).                  *)
(* TLC has no reals; every operator below is overridden by the Java class  *)
(* java/Dbl.java.  The bodies only give TLC an arity.  Only the            *)
(* arithmetic is Java: every formula about the system is written in TLA+.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

F(i)          == CHOOSE s \in STRING : TRUE   \* integer -> double
FAdd(a, b)    == CHOOSE s \in STRING : TRUE
FSub(a, b)    == CHOOSE s \in STRING : TRUE
FMul(a, b)    == CHOOSE s \in STRING : TRUE
FDiv(a, b)    == CHOOSE s \in STRING : TRUE
FPow(a, b)    == CHOOSE s \in STRING : TRUE
FMax(a, b)    == CHOOSE s \in STRING : TRUE
FMin(a, b)    == CHOOSE s \in STRING : TRUE
FAbs(a)       == CHOOSE s \in STRING : TRUE
FNeg(a)       == CHOOSE s \in STRING : TRUE
FExp(a)       == CHOOSE s \in STRING : TRUE
FLog(a)       == CHOOSE s \in STRING : TRUE
FSqrt(a)      == CHOOSE s \in STRING : TRUE
FSin(a)       == CHOOSE s \in STRING : TRUE
FCos(a)       == CHOOSE s \in STRING : TRUE
FTanh(a)      == CHOOSE s \in STRING : TRUE
FFloor(a)     == CHOOSE s \in STRING : TRUE   \* floor, as a double
FInt(a)       == CHOOSE i \in Nat : TRUE      \* truncation to an integer (clipped to 32 bits)
FLt(a, b)     == CHOOSE s \in BOOLEAN : TRUE
FLe(a, b)     == CHOOSE s \in BOOLEAN : TRUE
FEq(a, b)     == CHOOSE s \in BOOLEAN : TRUE  \* numeric equality (nan equals nan)
FFinite(a)    == CHOOSE s \in BOOLEAN : TRUE
(* |a-b| <= 1e-11 + 1e-9*max(|a|,|b|); nan only close to nan, inf to inf  *)
FClose(a, b)  == CHOOSE s \in BOOLEAN : TRUE
(* |a-b| <= tol * (1 + max(|a|,|b|))                                      *)
FNear(a, b, tol) == CHOOSE s \in BOOLEAN : TRUE
(* structural equality of any two values, doubles in them up to the       *)
(* relative error tol                                                     *)
Alike(a, b, tol) == CHOOSE s \in BOOLEAN : TRUE
(* sequence primitives (sum, dot product, left to right)                  *)
FSum(s)       == CHOOSE x \in STRING : TRUE
FDot(s, t)    == CHOOSE x \in STRING : TRUE
FStr(a)       == CHOOSE x \in STRING : TRUE   \* readable decimal, for messages only
(* bytewise helpers on strings                                            *)
StrLen(s)     == CHOOSE i \in Nat : TRUE
Chars(s)      == CHOOSE q \in Seq(STRING) : TRUE  \* sequence of 1-character strings
=============================================================================
