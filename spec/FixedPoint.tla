----------------------------- MODULE FixedPoint ------------------------------
(***************************************************************************)
(* Extended precision numbers f * 2^e with W bit significands, the way the *)
(* library calculates with them, at widths TLC can enumerate (W < 30).     *)
(***************************************************************************)
EXTENDS Contract, TLC

CONSTANTS W

H == W \div 2

RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * ToInt(Tail(a))

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

RECURSIVE Halves(_, _)
Halves(a, n) == IF n = 0 THEN a ELSE Halves(DivSmall(a, 2), n - 1)
RECURSIVE Tenths(_, _)
Tenths(a, n) == IF n = 0 THEN a ELSE Tenths(DivSmall(a, 10), n - 1)

\* [f, e] with one bit to spare, from a natural and a binary exponent
Rounded(a, e) ==
  LET n == CHOOSE i \in 0..120 : LET h == Halves(a, i) IN Cmp(h, Pow2(W + 1)) < 0 /\ Cmp(h, Pow2(W)) >= 0
      f == (ToInt(Halves(a, n)) + 1) \div 2
  IN  IF f = 2 ^ W THEN [f |-> 2 ^ (W - 1), e |-> e + n + 2] ELSE [f |-> f, e |-> e + n + 1]

\* table of powers of ten: W bits, rounded half up
Table == TLCEval([k \in -24..24 |->
            IF k >= 0 THEN Rounded(Mul(Shift10(<<1>>, k), Pow2(W + 1)), -(W + 1))
            ELSE Rounded(Tenths(Pow2(110), -k), -110)])

\* the product of the library: halves, the lowest partial product's low half dropped
Times(x, y) ==
  LET m == 2 ^ H
      a == x.f \div m  b == x.f % m  c == y.f \div m  d == y.f % m
      tmp == ((b * d) \div m) + ((a * d) % m) + ((b * c) % m) + (m \div 2)
  IN  [f |-> a * c + (a * d) \div m + (b * c) \div m + tmp \div m, e |-> x.e + y.e + W]

Normal(x) == LET s == W - BitLen(x.f) IN [f |-> x.f * 2 ^ s, e |-> x.e - s]
=============================================================================
