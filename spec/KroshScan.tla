------------------------------ MODULE KroshScan ------------------------------
(***************************************************************************)
(* How the parser of the library collects a mantissa, character by         *)
(* character, in lock-step with the automaton of Scanner: at most Kappa    *)
(* digits, FD digits behind them, a decimal exponent; zeros are held back  *)
(* until a digit follows them.  The invariants relate what is collected to *)
(* the exact literal.  (The library: Kappa = 19 or 9, FD = 4.)             *)
(*                                                                         *)
(* Capped  held back zeros take no more than the room there is             *)
(* Counted zeros among the digits behind the first Kappa ones are counted  *)
(* (each FALSE is a negative control)                                      *)
(***************************************************************************)
EXTENDS Scanner, TLC

CONSTANTS Kappa, FD, Alphabet, MaxLen, Capped, Counted

VARIABLES st,      \* the automaton
          digits,  \* collected
          dot,     \* decimal point seen
          zeros,   \* held back
          gain,    \* digits before the point which are not in digits
          fdc,     \* digits after the point which are in digits
          behind,  \* first digit behind the collected ones seen
          tdc, tail

vars == <<st, digits, dot, zeros, gain, fdc, behind, tdc, tail>>

Init == st = ScanInit /\ digits = <<>> /\ dot = FALSE /\ zeros = 0 /\ gain = 0
        /\ fdc = 0 /\ behind = FALSE /\ tdc = 0 /\ tail = 0

B(x) == IF x THEN 1 ELSE 0
Least(a, b) == IF a < b THEN a ELSE b

Zero ==
  /\ IF digits # <<>> \/ dot
     THEN zeros' = zeros + 1 /\ tdc' = tdc + B(behind /\ Counted) /\ gain' = gain + B(~dot)
     ELSE UNCHANGED <<zeros, tdc, gain>>
  /\ UNCHANGED <<digits, dot, fdc, behind, tail>>

Digit(d) ==
  LET room == Kappa - Len(digits)
      flush == zeros > 0 /\ room > 0
      copied == IF digits = <<>> \/ ~Capped THEN zeros ELSE Least(zeros, room)
      taken == IF digits = <<>> \/ ~Capped THEN gain ELSE Least(gain, room)
      dg == IF flush /\ digits # <<>> THEN digits \o [i \in 1..copied |-> 0] ELSE digits
      z1 == IF flush THEN zeros - copied ELSE zeros
      g1 == IF flush THEN gain - taken ELSE gain
      f1 == IF flush THEN fdc + copied - taken ELSE fdc
      t1 == IF behind THEN tdc ELSE z1
  IN  IF Len(dg) < Kappa
      THEN /\ digits' = Append(dg, d) /\ fdc' = f1 + B(dot) /\ zeros' = z1 /\ gain' = g1
           /\ UNCHANGED <<dot, behind, tdc, tail>>
      ELSE /\ digits' = dg /\ fdc' = f1 /\ zeros' = z1 /\ gain' = g1 + B(~dot)
           /\ behind' = TRUE
           /\ IF t1 < FD THEN tdc' = t1 + 1 /\ tail' = tail + d * 10 ^ (FD - t1 - 1)
              ELSE tdc' = t1 /\ UNCHANGED tail
           /\ UNCHANGED dot

Point == dot' = TRUE /\ UNCHANGED <<digits, zeros, gain, fdc, behind, tdc, tail>>

Feed(c) ==
  /\ st.pos < MaxLen
  /\ st' = ScanStep(st, c)
  /\ st'.ph \in {"int", "dot", "frac"}
  /\ IF c = cDot THEN Point ELSE IF c = c0 THEN Zero ELSE Digit(Dig(c))

Next == \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
K == gain - fdc

Typed == Len(digits) <= Kappa /\ tail < 10 ^ FD /\ gain >= 0 /\ zeros >= 0

\* nothing but zeros read so far: nothing collected
ZeroAgrees == (st.ds = <<>>) = (digits = <<>>)

\* the literal lies in [D + tail/10^FD, D + (tail+1)/10^FD) * 10^K, and is the
\* left end of it as long as nothing lies behind the collected digits
Collected == digits # <<>> =>
  LET x == K - FD
      lo == AddSmall(Shift10(FromDigits(digits), FD), tail)
      lit == Literal(st)
      low == IF x < lit.x THEN x ELSE lit.x
      L == Shift10(lit.n, lit.x - low)
  IN  /\ Cmp(Shift10(lo, x - low), L) <= 0
      /\ Cmp(L, Shift10(AddSmall(lo, 1), x - low)) < 0
      /\ ~behind => Cmp(Shift10(lo, x - low), L) = 0 /\ tail = 0

\* no precision is given away: all Kappa digits are in use before any lies behind
Full == behind => Len(digits) = Kappa
=============================================================================
