-------------------------------- MODULE Grisu ---------------------------------
(***************************************************************************)
(* The printing algorithm of the library, step by step, with its widths as *)
(* parameters: values of P bits, extended precision numbers of W bits.     *)
(* (The library: P = 53, W = 64 and P = 24, W = 32.)  The model shows at   *)
(* small widths, for every value, that the design keeps the contract: the  *)
(* margins subtracted from the scaled interval cover the errors of table   *)
(* and product, digits are generated exactly, generation terminates.       *)
(*                                                                         *)
(* Margin   units taken off either end of the scaled interval (library: 1) *)
(* Asym     lower boundary of powers of two at half the distance           *)
(***************************************************************************)
EXTENDS FixedPoint

CONSTANTS P, EMin, EMax, Thresh, Margin, Asym

Fmt == [P |-> P, EMIN |-> -EMin, EMAX |-> EMax, maxd |-> 2 + (P * 30103) \div 100000]

Alpha == -(H + 3)
Gamma == -H
Hidden == 2 ^ (P - 1)

\* the decimal power which brings the exponent into [Alpha, Gamma]
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
KComp(e) == TruncDiv((Alpha - e - 1) * 30103, 100000) + (IF e + 1 < Alpha THEN 1 ELSE 0)

-----------------------------------------------------------------------------
VARIABLES
  ph,      \* phase: idle, scale, int, frac, layout, done
  v,       \* the value, as in FloatFormat
  mp, mm,  \* scaled ends of the interval
  p1, p2,  \* integer and fraction part of mp, not yet printed
  delta,   \* scaled width of the interval
  kap,     \* digits of p1 to come, later digits of the fraction printed
  buf,     \* digits
  k,       \* decimal exponent
  tx       \* text

vars == <<ph, v, mp, mm, p1, p2, delta, kap, buf, k, tx>>

Values == {[cls |-> "fin", neg |-> FALSE, m |-> FromInt(m), e |-> -EMin, tp |-> FALSE] : m \in 1..(Hidden - 1)}
     \cup {[cls |-> "fin", neg |-> (m + e) % 5 = 0, m |-> FromInt(m), e |-> e, tp |-> m = Hidden /\ e > -EMin] :
             m \in Hidden..(2 * Hidden - 1), e \in (-EMin)..EMax}

\* smaller sets of values, to be substituted
Pow2Values == {[cls |-> "fin", neg |-> FALSE, m |-> FromInt(Hidden), e |-> e, tp |-> TRUE] : e \in (1 - EMin)..EMax}
ThinValues == {x \in Values : ToInt(x.m) % 5 \in {x.e % 5} \/ ToInt(x.m) \in {Hidden, 2 * Hidden - 1} \/ x.e = -EMin}

Candidates == Values

Nil == [f |-> 0, e |-> 0]
Init == /\ ph = "idle" /\ v = <<>> /\ mp = Nil /\ mm = Nil /\ p1 = 0 /\ p2 = 0
        /\ delta = 0 /\ kap = 0 /\ buf = <<>> /\ k = 0 /\ tx = <<>>

\* boundaries, normalised to the exponent of the upper one
Begin(x) ==
  /\ ph = "idle" /\ ph' = "scale" /\ v' = x
  /\ LET m == ToInt(x.m)
         up == 2 * m + 1
         s == W - BitLen(up)
         half == IF m = Hidden /\ Asym THEN 2 ELSE 1
         lo == m * 2 ^ half - 1
     IN  /\ mp' = [f |-> up * 2 ^ s, e |-> x.e - 1 - s]
         /\ mm' = [f |-> lo * 2 ^ (s + 1 - half), e |-> x.e - 1 - s]
  /\ UNCHANGED <<p1, p2, delta, kap, buf, k, tx>>

DigitsOfInt(n) == CHOOSE d \in 1..9 : n < 10 ^ d /\ (d = 1 \/ n >= 10 ^ (d - 1))

Scale ==
  /\ ph = "scale" /\ ph' = "int"
  /\ LET mk == KComp(mp.e)
         u == Times(mp, Table[mk])
         l == Times(mm, Table[mk])
         hi == [u EXCEPT !.f = @ - Margin]
         lo == [l EXCEPT !.f = @ + Margin]
         one == 2 ^ (-hi.e)
     IN  /\ mp' = hi /\ mm' = lo /\ k' = -mk
         /\ p1' = hi.f \div one /\ p2' = hi.f % one
         /\ delta' = hi.f - lo.f
         /\ kap' = IF hi.f \div one = 0 THEN 0 ELSE DigitsOfInt(hi.f \div one)
  /\ UNCHANGED <<v, buf, tx>>

One == 2 ^ (-mp.e)
Close == mp.f % One <= delta

IntDigit ==
  /\ ph = "int" /\ p1 > 0
  /\ LET div == 10 ^ (kap - 1)
     IN buf' = Append(buf, p1 \div div) /\ p1' = p1 % div /\ kap' = kap - 1
  /\ UNCHANGED <<ph, v, mp, mm, p2, delta, k, tx>>

\* integer part exhausted: stop within the interval or go on with the fraction
IntDone ==
  /\ ph = "int" /\ p1 = 0
  /\ IF buf # <<>> /\ Close
     THEN ph' = "layout" /\ k' = k + kap /\ UNCHANGED <<buf, kap>>
     ELSE ph' = "frac" /\ buf' = buf \o [i \in 1..kap |-> 0] /\ kap' = 0 /\ UNCHANGED k
  /\ UNCHANGED <<v, mp, mm, p1, p2, delta, tx>>

FracDigit ==
  /\ ph = "frac" /\ p2 > delta
  /\ LET d == (p2 * 10) \div One
     IN /\ buf' = IF buf # <<>> \/ d > 0 THEN Append(buf, d) ELSE buf
        /\ p2' = (p2 * 10) % One
        /\ delta' = delta * 10
        /\ kap' = kap + 1
  /\ UNCHANGED <<ph, v, mp, mm, p1, k, tx>>

FracDone ==
  /\ ph = "frac" /\ p2 <= delta
  /\ ph' = "layout" /\ k' = k - kap
  /\ UNCHANGED <<v, mp, mm, p1, p2, delta, kap, buf, tx>>

Lay ==
  /\ ph = "layout" /\ ph' = "done"
  /\ tx' = NumText(Thresh, v.neg, buf, k)
  /\ UNCHANGED <<v, mp, mm, p1, p2, delta, kap, buf, k>>

Step == Scale \/ IntDigit \/ IntDone \/ FracDigit \/ FracDone \/ Lay
Rest == ph = "done" /\ UNCHANGED vars
Next == (ph = "idle" /\ \E x \in Candidates : Begin(x)) \/ Step \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Num(_)
Num(ds) == IF ds = <<>> THEN 0 ELSE 10 * Num(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]

\* scaling brings the exponent into the range digit generation expects
InRange == ph \in {"int", "frac"} => /\ Alpha <= mp.e /\ mp.e <= Gamma
                                     /\ mm.e = mp.e /\ 0 <= delta /\ mp.f < 2 ^ W

\* digits printed and digits to come make up the scaled upper end
DigitsInv ==
  /\ ph = "int" => Num(buf) * 10 ^ kap + p1 = mp.f \div One
  /\ (ph = "frac" /\ kap < 5) => Num(buf) * One + p2 = (IF kap = 0 THEN mp.f ELSE
                                      ((mp.f \div One) * 10 ^ kap) * One + ((mp.f % One) * 10 ^ kap))

\* partial products and remainders stay within the width of the machine words
NoOverflow == /\ p2 < 2 ^ (W - 4) /\ delta < 2 ^ W
              /\ p1 < 2 ^ H

NoTrailingZero == ph \in {"layout", "done"} => buf # <<>> /\ buf[1] # 0

\* the contract
Printed == ph = "done"
C01 == Printed => Identifies(v, tx)
C03 == Printed => CanonicalAt(Thresh, v, tx)
C05 == Printed => DigitBound(Fmt, v, tx)

\* number of values printed and printed with the least number of digits
Measured == Printed => TLCSet(21, TLCGet(21) + 1) /\ (IF IsShortest(v, tx) THEN TLCSet(22, TLCGet(22) + 1) ELSE TRUE)
ASSUME TLCSet(21, 0) /\ TLCSet(22, 0)
SumR(r) == FoldLeft(LAMBDA a, b : a + b, 0, TLCGet("all")[r])
Quality == PrintT("SHORTEST " \o ToString(SumR(22)) \o " of " \o ToString(SumR(21)))

\* every step consumes digits of bounded number: with the absence of deadlocks
\* (every state but the resting one has a step) generation terminates
Progress == Len(buf) <= 2 * W /\ kap <= W
=============================================================================
