------------------------------- MODULE BigDec -------------------------------
(***************************************************************************)
(* Arbitrary precision naturals and exact decimal numbers, in plain TLA+.  *)
(*                                                                         *)
(* TLC integers are 32 bits wide, binary64 boundaries need more than 2500  *)
(* bits.  A natural is a little-endian sequence of base-10^4 limbs without *)
(* leading (most significant) zero limbs; zero is the empty sequence.      *)
(* Base 10^4 makes products of limbs fit into 32 bits and decimal digits   *)
(* directly accessible.                                                    *)
(*                                                                         *)
(* Every binary floating point number is an exact decimal number, so the   *)
(* numbers that matter here are all of the form [n |-> limbs, x |-> e],    *)
(* standing for n * 10^e.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

Pow10Small == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>

RECURSIVE TrimTo(_, _)
TrimTo(s, n) == IF n = 0 THEN <<>>
                ELSE IF s[n] # 0 THEN (IF n = Len(s) THEN s ELSE SubSeq(s, 1, n))
                ELSE TrimTo(s, n - 1)
Trim(s) == TrimTo(s, Len(s))

RECURSIVE FromInt(_)
FromInt(v) == IF v = 0 THEN <<>> ELSE <<v % Base>> \o FromInt(v \div Base)

\* carry propagation over a sequence of column sums
Norm(cols) ==
  LET r == FoldLeft(LAMBDA a, c : LET t == a.c + c
                                  IN  [o |-> Append(a.o, t % Base), c |-> t \div Base],
                    [o |-> <<>>, c |-> 0], cols)
  IN  Trim(r.o \o FromInt(r.c))

\* x <= 200000
MulSmall(a, x) == Norm([i \in 1..Len(a) |-> a[i] * x])

\* x < 2^30
AddSmall(a, x) == IF a = <<>> THEN FromInt(x)
                  ELSE Norm([i \in 1..Len(a) |-> IF i = 1 THEN a[1] + x ELSE a[i]])

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

Add(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
             IN  Norm([i \in 1..n |-> Limb(a, i) + Limb(b, i)])

\* a >= b
Sub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] - Limb(b, i) - acc.c
                                    IN  IF t < 0 THEN [o |-> Append(acc.o, t + Base), c |-> 1]
                                        ELSE [o |-> Append(acc.o, t), c |-> 0],
                    [o |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN  Trim(r.o)

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1
                  ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpAt(a, b, Len(a))

\* shorter operand of up to 20 limbs (column sums stay below 2^31); otherwise
\* it is split
RECURSIVE Mul(_, _)
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  LET s == IF Len(a) <= Len(b) THEN a ELSE b
      l == IF Len(a) <= Len(b) THEN b ELSE a
      n == Len(l)
  IN  IF Len(s) > 20
      THEN Add(Mul(SubSeq(s, 1, 20), l),
               [i \in 1..20 |-> 0] \o Mul(SubSeq(s, 21, Len(s)), l))
      ELSE LET is == [i \in 1..Len(s) |-> i]
               col(k) == FoldLeft(LAMBDA acc, i : IF i <= k /\ k - i < n THEN acc + s[i] * l[k - i + 1] ELSE acc,
                                  0, is)
           IN  Norm([k \in 1..(Len(s) + n - 1) |-> col(k)])

\* floor(a / x), 0 < x <= 200000
DivSmall(a, x) ==
  LET n == Len(a)
      r == FoldLeft(LAMBDA acc, i : LET t == acc.r * Base + a[n + 1 - i]
                                    IN  [o |-> Append(acc.o, t \div x), r |-> t % x],
                    [o |-> <<>>, r |-> 0], [i \in 1..n |-> i])
  IN  Trim([i \in 1..n |-> r.o[n + 1 - i]])

\* big-endian decimal digits to limbs
FromDigits(ds) ==
  LET n == Len(ds)
      nl == (n + 3) \div 4
      dig(p) == IF p < n THEN ds[n - p] ELSE 0     \* p: position from the right, 0-based
  IN  Trim([i \in 1..nl |-> LET p == 4 * (i - 1)
                            IN  dig(p) + 10 * dig(p + 1) + 100 * dig(p + 2) + 1000 * dig(p + 3)])

SmallLen(v) == IF v < 10 THEN 1 ELSE IF v < 100 THEN 2 ELSE IF v < 1000 THEN 3 ELSE 4

\* number of decimal digits
NDig(a) == IF a = <<>> THEN 0 ELSE 4 * (Len(a) - 1) + SmallLen(a[Len(a)])

\* i-th most significant decimal digit (1-based) of a, which has nd digits;
\* zeros follow
DigitFromTop(a, nd, i) ==
  IF i > nd THEN 0
  ELSE LET p == nd - i
       IN  (a[(p \div 4) + 1] \div Pow10Small[(p % 4) + 1]) % 10

-----------------------------------------------------------------------------
(* Tables of powers, evaluated once *)
Pow5T == FoldLeft(LAMBDA acc, i : Append(acc, MulSmall(acc[i], 5)), << <<1>> >>, [i \in 1..1300 |-> i])
Pow2T == FoldLeft(LAMBDA acc, i : Append(acc, MulSmall(acc[i], 2)), << <<1>> >>, [i \in 1..1300 |-> i])
Pow5(k) == Pow5T[k + 1]
Pow2(k) == Pow2T[k + 1]

\* a * 10^k
Shift10(a, k) == IF a = <<>> THEN <<>>
                 ELSE LET m == MulSmall(a, Pow10Small[(k % 4) + 1])
                      IN  [i \in 1..(k \div 4) |-> 0] \o m

-----------------------------------------------------------------------------
(* Exact positive decimal numbers [n, x] = n * 10^x, n # 0 *)

\* m * 2^q, m a natural (limbs)
Binary(m, q) == IF q >= 0 THEN [n |-> Mul(m, Pow2(q)), x |-> 0]
                ELSE [n |-> Mul(m, Pow5(-q)), x |-> q]

\* position of the leading digit: 10^(Lead-1) <= a < 10^Lead
Lead(a) == NDig(a.n) + a.x

RECURSIVE CmpDigits(_, _, _, _, _)
CmpDigits(a, na, b, nb, i) ==
  IF i > na /\ i > nb THEN 0
  ELSE LET p == DigitFromTop(a, na, i)
           q == DigitFromTop(b, nb, i)
       IN  IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE CmpDigits(a, na, b, nb, i + 1)

\* three-way comparison of exact decimals
CmpX(a, b) ==
  LET na == NDig(a.n) nb == NDig(b.n)
      la == na + a.x  lb == nb + b.x
  IN  IF la < lb THEN -1 ELSE IF la > lb THEN 1
      ELSE CmpDigits(a.n, na, b.n, nb, 1)

\* big-endian 16-bit words
FromWords(w) == FoldLeft(LAMBDA a, x : AddSmall(MulSmall(a, 65536), x), <<>>, w)

\* the n most significant digits of a, as a digit sequence
TopDigits(a, n) == LET nd == NDig(a.n) IN [i \in 1..n |-> DigitFromTop(a.n, nd, i)]

=============================================================================
