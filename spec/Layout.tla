------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The canonical text of the number  ds * 10^k  (ds: non-empty digit       *)
(* sequence without leading and trailing zeros).  Decimal notation is used *)
(* iff neither the integer part nor the fraction needs more than T digits. *)
(***************************************************************************)
EXTENDS Chars, BigDec

Code(ds) == [i \in 1..Len(ds) |-> c0 + ds[i]]
Zeros(n) == [i \in 1..n |-> c0]
Sign(neg) == IF neg THEN <<cMinus>> ELSE <<>>

MaxI(a, b) == IF a > b THEN a ELSE b

\* digits of a natural number below 1000, at least two
ExpDigits(n) == IF n < 100 THEN <<c0 + (n \div 10), c0 + (n % 10)>>
                ELSE <<c0 + (n \div 100), c0 + ((n \div 10) % 10), c0 + (n % 10)>>

Scientific(T, ds, k) == MaxI(Len(ds) + k, -k) > T

DecimalText(ds, k) ==
  LET n == Len(ds)
      dot == n + k
  IN  IF k >= 0 THEN Code(ds) \o Zeros(k)
      ELSE IF dot > 0 THEN Code(SubSeq(ds, 1, dot)) \o <<cDot>> \o Code(SubSeq(ds, dot + 1, n))
      ELSE <<c0, cDot>> \o Zeros(-dot) \o Code(ds)

ScientificText(ds, k) ==
  LET n == Len(ds)
      e == n + k - 1
  IN  Code(<<ds[1]>>)
      \o (IF n > 1 THEN <<cDot>> \o Code(SubSeq(ds, 2, n)) ELSE <<>>)
      \o <<cle>> \o Sign(e < 0) \o ExpDigits(IF e < 0 THEN -e ELSE e)

NumText(T, neg, ds, k) ==
  Sign(neg) \o (IF Scientific(T, ds, k) THEN ScientificText(ds, k) ELSE DecimalText(ds, k))

RECURSIVE TrailingZeros(_)
TrailingZeros(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN 1 + TrailingZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE 0
=============================================================================
