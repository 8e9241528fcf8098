------------------------------ MODULE Scaling -------------------------------
(***************************************************************************)
(* The choice of powers of ten, at the real sizes of both formats.  Grisu  *)
(* and KroshRound look into the algorithms at small widths; what those     *)
(* cannot say anything about is whether the constants of the library fit   *)
(* its formats.  They are integers few enough to look at all of them: each *)
(* behaviour walks through all binary exponents a scaled number may have   *)
(* when it is printed, and through all decimal exponents a literal may     *)
(* have, with exact powers of ten.                                         *)
(*                                                                         *)
(* W, P        bits of extended numbers and of values                      *)
(* EMin, EMax  exponents of an integral significand: -EMin..EMax           *)
(* Off         the table reaches from 10^-Off to 10^Off                    *)
(* Kappa       digits collected from a literal, FB bits of the tail        *)
(* MaxExp      saturation of a written exponent, MaxLen of the mantissa    *)
(* Upwards     correction of the truncated logarithm (FALSE: neg. control) *)
(***************************************************************************)
EXTENDS BigDec, Integers

CONSTANTS W, P, EMin, EMax, Off, Kappa, FB, MaxExp, MaxLen, MaxDigits, Upwards

H == W \div 2
Alpha == -(H + 3)
Gamma == -H

VARIABLES side, e \* which walk, and where it is
vars == <<side, e>>

\* ---- printing -------------------------------------------------------------
\* The upper end of the interval of m * 2^x is (2 m + 1) * 2^(x - 1), brought
\* to W bits: from the smallest subnormal (two bits) to P + 1 bits.
FirstE == -EMin - 1 - (W - 2)
LastE == EMax - 1 - (W - P - 1)

\* (x * 0.30102999566) truncated, in words of 31 bits
Lg2(x) == (x * 30102 + (x * 999566) \div 1000000) \div 100000
KComp(x) == LET n == Alpha - x - 1
            IN  (IF n >= 0 THEN Lg2(n) ELSE -Lg2(-n)) + (IF Upwards /\ x + 1 < Alpha THEN 1 ELSE 0)

Ten(k) == [n |-> <<1>>, x |-> k]
Two(q) == Binary(<<1>>, q)
\* exponent of the W bit significand of 10^k
TenExp(k) == CHOOSE q \in {((k * 33219) \div 10000) - W + 1 + d : d \in -1..1} :
               CmpX(Two(q + W - 1), Ten(k)) <= 0 /\ CmpX(Ten(k), Two(q + W)) < 0

Printing == side = "print"
Mk == KComp(e)
Scaled == e + TenExp(Mk) + W   \* exponent of the product, which isn't normalised

InTable == Printing => -Off <= Mk /\ Mk <= Off
InRange == Printing /\ -Off <= Mk /\ Mk <= Off => Alpha <= Scaled /\ Scaled <= Gamma

\* ---- parsing --------------------------------------------------------------
\* D * 10^e, 1 <= D < 10^Kappa, with a tail of less than a unit
Parsing == side = "parse"
FirstK == -(Off + Kappa + 40)
LastK == Off + 40

\* the least which rounds to infinity, the most which rounds to zero
Huge == Binary(Sub(Pow2(P + 1), <<1>>), EMax - 1)
Tiny == Two(-EMin - 1)

Sure == e > Off \/ e + Kappa < -Off \* settled without looking at D
OverflowRight == Parsing /\ e > Off => CmpX(Ten(e), Huge) >= 0
UnderflowRight == Parsing /\ e + Kappa < -Off => CmpX(Ten(e + Kappa), Tiny) <= 0
\* what is not settled and not in the table is left to the fallback: too rare
\* to matter, since the value is so small that all its digits are needed
DoubtIsRare == Parsing /\ e < -Off /\ ~Sure => CmpX(Ten(e + 1), Tiny) <= 0

\* ---- the constants, once ----------------------------------------------------
BitsOf(a) == CHOOSE q \in 1..200 : Cmp(a, Pow2(q)) < 0 /\ Cmp(a, Pow2(q - 1)) >= 0
Constants ==
  \* the digits collected fit a word, and so do four more digits of the tail
  /\ Cmp(Shift10(<<1>>, Kappa), Pow2(W)) <= 0
  /\ FB > W - BitsOf(Shift10(<<1>>, Kappa - 1))
  \* the integer part of a scaled number is positive and half a word long
  /\ W - 2 + Alpha >= 0 /\ W + Gamma <= H
  \* the remainder times ten fits a word, with the width of the interval next to it
  /\ 4 - Alpha <= W
  \* digits enough: the interval of a value is not smaller than 2^-P of it
  \* (less a little for errors: 2^(P + 3 - W) of it)
  /\ LET need == Add(Pow2(P), Pow2(2 * P + 3 - W)) IN Cmp(Shift10(<<1>>, MaxDigits - 1), need) >= 0
  \* a saturated exponent decides, however long the mantissa
  /\ MaxExp - MaxLen - 2 > Off
  /\ MaxExp - MaxLen - 2 - Kappa > Off
ASSUME Constants

Init == side \in {"print", "parse"} /\ e = IF side = "print" THEN FirstE ELSE FirstK
Next == e < (IF Printing THEN LastE ELSE LastK) /\ e' = e + 1 /\ UNCHANGED side
Spec == Init /\ [][Next]_vars
=============================================================================
