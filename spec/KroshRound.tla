----------------------------- MODULE KroshRound ------------------------------
(***************************************************************************)
(* How the parser of the library turns what KroshScan collected - digits   *)
(* D, tail, decimal exponent K - into a value: normalisation, bits of the  *)
(* tail, multiplication by a tabulated power of ten, rounding, and the     *)
(* decision whether rounding can be trusted.  At small widths, for every   *)
(* literal the collected numbers can stand for: a trusted value is the     *)
(* correctly rounded one with the right status, and distrust is limited to *)
(* the neighbourhood of rounding boundaries.                               *)
(*                                                                         *)
(* MaxError  units the mantissa may be wrong by (library: 4)               *)
(* Carry     rounding up may reach the next binade (FALSE: neg. control)   *)
(* UseTail   the digits behind the mantissa are used (FALSE: neg. control) *)
(***************************************************************************)
EXTENDS FixedPoint

CONSTANTS P, EMin, EMax, Kappa, FD, FB, BLo, BHi, KLo, KHi, Stride, MaxError, Carry, UseTail

\* (no negative numbers in cfg files)
MBLo == -9
MKLo == -15

Fmt == [P |-> P, EMIN |-> -EMin, EMAX |-> EMax, maxd |-> 0]
Hidden == 2 ^ (P - 1)

\* decimal fraction to binary fraction, digit by digit
RECURSIVE Bits(_, _)
Bits(t, i) ==
  LET part == (10 ^ FD) \div (2 ^ i)
      d == IF t >= part THEN 1 ELSE 0
  IN  IF i = FB THEN d ELSE d * 2 ^ (FB - i) + Bits(t - d * part, i + 1)

\* round half to even: drop the n lowest bits of x?
RoundUp(x, n) == LET h == 2 ^ (n - 1) IN (x \div h) % 2 = 1 /\ (x % h # 0 \/ (x \div (2 * h)) % 2 = 1)

\* the next number
Next1(x) == IF x.f = 2 ^ W - 1 THEN [f |-> 2 ^ (W - 1), e |-> x.e + 1] ELSE [x EXCEPT !.f = @ + 1]

VARIABLES ph, D, tl, K, w, v, s, ok
vars == <<ph, D, tl, K, w, v, s, ok>>

No == [cls |-> "none"]
ZeroV == [cls |-> "zero", neg |-> FALSE, m |-> <<>>, e |-> 0, tp |-> FALSE]
InfV == [cls |-> "inf", neg |-> FALSE, m |-> <<>>, e |-> 0, tp |-> FALSE]
\* m in 1..2^P
FinV(m, e) == LET r == IF m = 2 * Hidden THEN [m |-> Hidden, e |-> IF Carry THEN e + 1 ELSE e] ELSE [m |-> m, e |-> e]
              IN  IF r.e > EMax THEN InfV
                  ELSE [cls |-> "fin", neg |-> FALSE, m |-> FromInt(r.m), e |-> r.e, tp |-> r.m = Hidden /\ r.e > -EMin]

Init == ph = "idle" /\ D = 0 /\ tl = -1 /\ K = 0 /\ w = [f |-> 0, e |-> 0] /\ v = No /\ s = 0 /\ ok = TRUE

\* tl = -1: nothing behind the digits
Begin(d, t, k) ==
  /\ ph = "idle" /\ ph' = "tail" /\ D' = d /\ tl' = t /\ K' = k
  /\ w' = Normal([f |-> d, e |-> 0])
  /\ UNCHANGED <<v, s, ok>>

AddTail ==
  /\ ph = "tail" /\ ph' = "scale"
  /\ LET fr == IF UseTail /\ tl > 0 THEN Bits(tl, 1) ELSE 0
         n == FB + w.e
         x == [w EXCEPT !.f = @ + fr \div 2 ^ n]
     IN  w' = IF fr = 0 THEN w ELSE IF RoundUp(fr, n) THEN Next1(x) ELSE x
  /\ UNCHANGED <<D, tl, K, v, s, ok>>

Scale ==
  /\ ph = "scale"
  /\ IF K = 0 THEN ph' = "round" /\ UNCHANGED <<w, v, s, ok>>
     ELSE IF BLo <= K /\ K <= BHi THEN ph' = "round" /\ w' = Normal(Times(w, Table[K])) /\ UNCHANGED <<v, s, ok>>
     ELSE /\ ph' = "done" /\ UNCHANGED w
          /\ IF K < BLo THEN v' = ZeroV /\ s' = sUnderflow /\ ok' = (K + Kappa < BLo)
             ELSE v' = InfV /\ s' = sOverflow /\ ok' = TRUE
  /\ UNCHANGED <<D, tl, K>>

Round ==
  /\ ph = "round" /\ ph' = "done"
  /\ LET top == w.e + W
     IN  IF top > EMax + P THEN v' = InfV /\ s' = sOverflow /\ ok' = TRUE
         ELSE IF top < 1 - EMin THEN v' = ZeroV /\ s' = sUnderflow /\ ok' = (top < -1 - EMin)
         ELSE LET den == IF -EMin > w.e THEN -EMin - w.e ELSE 0
                  sh == IF den > W - P THEN den ELSE W - P
                  r == FinV(w.f \div 2 ^ sh + (IF RoundUp(w.f, sh) THEN 1 ELSE 0), w.e + sh)
                  half == 2 ^ (sh - 1)
                  rest == w.f % (2 * half)
              IN  /\ v' = r
                  /\ s' = IF r.cls = "inf" THEN sOverflow ELSE sSuccess
                  /\ ok' = ((IF rest > half THEN rest - half ELSE half - rest) > MaxError)
  /\ UNCHANGED <<D, tl, K, w>>

Rest == ph = "done" /\ UNCHANGED vars

Full == 10 ^ (Kappa - 1)
Ks == KLo..KHi
Cases(k) == {<<d, -1>> : d \in 1..(Full - 1)}
  \cup {<<d, t>> : d \in {x \in Full..(10 * Full - 1) : x % Stride = (k + 50) % Stride},
                   t \in {-1, 0, 1, (10 ^ FD) \div 2, 10 ^ FD - 1, (k * 37 + 1000) % (10 ^ FD)}}
Next == (ph = "idle" /\ \E k \in Ks : \E c \in Cases(k) : Begin(c[1], c[2], k)) \/ AddTail \/ Scale \/ Round \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Normalised == ph \in {"tail", "round"} => w.f >= 2 ^ (W - 1) /\ w.f < 2 ^ W
Fits == ph = "scale" => w.f < 2 ^ W
\* the tail is seen with all the bits it needs
TailFits == ph = "tail" /\ tl > 0 => FB + w.e > 0

Lo == [n |-> IF tl <= 0 THEN Shift10(FromInt(D), FD) ELSE AddSmall(Shift10(FromInt(D), FD), tl), x |-> K - FD]
Hi == [Lo EXCEPT !.n = AddSmall(@, 1)]

Done == ph = "done"

\* mantissa before rounding: within MaxError / 2 units before normalisation, i.e. MaxError after it
WithinError == (ph = "round" /\ MaxError > 0) =>
   /\ CmpX(Lo, Binary(FromInt(w.f + MaxError), w.e)) <= 0
   /\ CmpX(IF tl >= 0 THEN Hi ELSE Lo, Binary(FromInt(w.f - MaxError), w.e)) >= 0

AllRoundTo == /\ RoundsTo(Fmt, Lo, v)
              /\ tl >= 0 => CASE v.cls = "fin" -> CmpX(Hi, UpperEnd(v)) <= 0
                              [] v.cls = "zero" -> CmpX(Hi, TinyBound(Fmt)) <= 0
                              [] OTHER -> TRUE

\* C07, C08 as far as the fallback is not asked
C07 == Done /\ ok => AllRoundTo
C08 == Done /\ ok => s = (CASE v.cls = "zero" -> sUnderflow [] v.cls = "inf" -> sOverflow [] OTHER -> sSuccess)

\* C11: the fallback is asked near boundaries only
NearAny(X) == \/ CmpX(X, TinyBound(Fmt)) <= 0
              \/ CmpX(X, Binary(FromInt(Hidden), -EMin)) < 0
              \/ (v.cls \in {"fin", "inf", "zero"} /\ NearBoundary(Fmt, X, v))
C11 == Done /\ ~ok => NearAny(Lo) \/ NearAny(Hi)

Count == Done => TLCSet(31, TLCGet(31) + 1) /\ (IF ok THEN TRUE ELSE TLCSet(32, TLCGet(32) + 1))
ASSUME TLCSet(31, 0) /\ TLCSet(32, 0)
SumR(r) == FoldLeft(LAMBDA a, b : a + b, 0, TLCGet("all")[r])
Share == PrintT("FALLBACK " \o ToString(SumR(32)) \o " of " \o ToString(SumR(31)))
=============================================================================
