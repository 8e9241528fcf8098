-------------------------------- MODULE DiyFp --------------------------------
(***************************************************************************)
(* How the library calculates with extended-precision numbers: splitting a *)
(* value, normalising it bit by bit, boundaries, products by halves, steps,*)
(* rounding back - in machine words of W = 16 bits with wrapping, for half *)
(* precision values (11 bits, so that 5 are to spare as 11 for double and  *)
(* 8 for float).  Every value of the format is split, bounded, normalised  *)
(* and converted back; significands around all the places where decisions  *)
(* change are rounded at every exponent.                                   *)
(*                                                                         *)
(* Checked: C16 as in DiyContract, and that no shift reaches the width.    *)
(***************************************************************************)
EXTENDS DiyContract, TLC

CONSTANTS
  Carries,     \* TRUE; FALSE: a carry of rounding stays in the significand
  WholeSum,    \* TRUE; FALSE: the products' low halves are dropped
  Asymmetric,  \* TRUE; FALSE: the lower boundary is always half a unit away
  Ops          \* considered

W == 16
H == W \div 2
Top == 2 ^ (W - 1)
Fmt == Binary16
PB == Fmt.P - 1                       \* stored bits
Hidden == 2 ^ PB
MaxE == Fmt.EMAX + Fmt.P              \* numeric_limits::max_exponent
MinE == Fmt.EMIN + Fmt.P              \* min_exponent
Bias == MaxE - 1 + PB

Wrap(n) == n % 2 ^ W
Mask(n) == 2 ^ n - 1
Bits(a, n) == a % 2 ^ n
Shl(a, n) == Wrap(Bits(a, W - n) * 2 ^ n)
Shr(a, n) == a \div 2 ^ n
Pos(n) == IF n > 0 THEN n ELSE 0

-----------------------------------------------------------------------------
\* what is done
Infinity == 31 * Hidden

Split(w) == LET be == Bits(w, W - 1) \div Hidden
            IN  IF be = 0 THEN [f |-> Bits(w, PB), e |-> 1 - Bias]
                ELSE [f |-> Bits(w, PB) + Hidden, e |-> be - Bias]

RoundUp(f, n) == LET half == 2 ^ (n - 1)
                     tail == Bits(f, n)
                 IN  [up |-> tail >= half /\ (tail # half \/ Bits(f, n + 1) # tail), acc |-> tail # half]

Shift(e) == LET d == Pos(MinE - PB - e - 1) IN IF d > W - Fmt.P THEN d ELSE W - Fmt.P
Sub0(e) == Pos(MinE - PB - e - 1) > W - Fmt.P

\* [w, st, acc]
Down(f, e, max) ==
  IF e + W > MaxE THEN [w |-> Infinity, st |-> 2, acc |-> TRUE]
  ELSE IF e + W < MinE - PB THEN [w |-> 0, st |-> 1, acc |-> e + W < MinE - PB - 2]
  ELSE LET s == Shift(e)
           r == RoundUp(f, s)
           up == IF r.up THEN 1 ELSE 0
           head == Shl(e + s + Bias - (IF Sub0(e) THEN 1 ELSE 0), PB)
           m == Bits(Shr(f, s), PB) + up
           w == Wrap(head + (IF Carries THEN m ELSE Bits(m, PB)))
           half == 2 ^ (s - 1)
           tail == Bits(f, s)
       IN  [w |-> w, st |-> IF w = Infinity THEN 2 ELSE 0, acc |-> r.acc /\ Abs(tail - half) > max]

Product(x, y) ==
  LET m == 2 ^ H
      a == x.f \div m  b == x.f % m  c == y.f \div m  d == y.f % m
      tmp == IF WholeSum THEN Wrap(((b * d) \div m) + ((a * d) % m) + ((b * c) % m) + m \div 2) ELSE 0
  IN  [f |-> Wrap(a * c + (a * d) \div m + (b * c) \div m + tmp \div m), e |-> x.e + y.e + W]

Up(x) == IF x.f < Mask(W) THEN [x EXCEPT !.f = x.f + 1] ELSE [f |-> Shr(x.f, 1) + 1, e |-> x.e + 1]
Lower(x) == IF x.f > 1 THEN [x EXCEPT !.f = x.f - 1] ELSE [f |-> Wrap(Shl(x.f, 1) - 1), e |-> x.e - 1]

-----------------------------------------------------------------------------
\* what it is done with
Values == 1..(Infinity - 1)

\* around the middle and the ends of any interval significands are rounded to
Heads(s) == LET all == 2 ^ (W - 1 - s)..(2 ^ (W - s) - 1)
            IN  IF s > 7 THEN all ELSE {q \in all : \E d \in 0..5 : q = 2 ^ (W - 1 - s) + d \/ q = 2 ^ (W - s) - 1 - d}
Edges == UNION {{q * 2 ^ s + h + d : q \in Heads(s), h \in {0, 2 ^ (s - 1)}, d \in -4..4} : s \in 5..15}
Fs == {f \in Edges : f >= Top /\ f < 2 ^ W}
Es == ((MinE - PB - W - 4)..(MinE - W + 2)) \cup ((MaxE - W - 2)..(MaxE - W + 2))
Bytes == {0, 1, 2, 85, 127, 128, 129, 170, 254, 255}
Factors == {h * 256 + l : h \in Bytes, l \in Bytes}

VARIABLES job, pc, x, y, out

vars == <<job, pc, x, y, out>>

Units == {1, 2, 3, 32767, 32768, 65534, 65535} \cup (Factors \ {0})

Only(o) == {o} \cap Ops

Init == /\ \/ job \in [op : {"conv", "bound"} \cap Ops, w : Values]
           \/ job \in [op : Only("down"), f : Fs, e : Es, max : {0, 3}]
           \/ job \in [op : Only("mul"), a : Factors, b : Factors]
           \/ job \in [op : Only("step"), f : Units]
           \/ job \in [op : Only("round"), f : (0..511) \cup Factors, n : 1..15]
        /\ pc = job.op
        /\ x = [f |-> 0, e |-> 0]
        /\ y = [f |-> 0, e |-> 0]
        /\ out = <<>>

Finish(r) == out' = r /\ pc' = "done" /\ UNCHANGED <<job, x, y>>

SplitValue == /\ pc = "conv"
              /\ x' = Split(job.w) /\ y' = Split(job.w)
              /\ pc' = "norm"
              /\ UNCHANGED <<job, out>>

Normalise == /\ pc = "norm" /\ y.f < Top
             /\ y' = [f |-> Shl(y.f, 1), e |-> y.e - 1]
             /\ UNCHANGED <<job, pc, x, out>>

Back == /\ pc = "norm" /\ y.f >= Top
        /\ LET d == Down(y.f, y.e, 0)
           IN  Finish([ty |-> "h", f |-> <<x.f>>, e |-> x.e, nf |-> <<y.f>>, ne |-> y.e, dw |-> <<d.w>>, dst |-> d.st])

Bound == /\ pc = "bound"
         /\ LET v == Split(job.w)
            IN  x' = v /\ y' = [f |-> v.f * 2 + 1, e |-> v.e - 1]
         /\ pc' = "raise"
         /\ UNCHANGED <<job, out>>

\* up to the bit above the stored ones first, then at once
Raise == /\ pc = "raise" /\ y.f \div 2 ^ Fmt.P % 2 = 0
         /\ y' = [f |-> Shl(y.f, 1), e |-> y.e - 1]
         /\ UNCHANGED <<job, pc, x, out>>

Bounded == /\ pc = "raise" /\ y.f \div 2 ^ Fmt.P % 2 = 1
           /\ LET u == W - Fmt.P - 1
                  pl == [f |-> Shl(y.f, u), e |-> y.e - u]
                  s == IF Asymmetric /\ x.f = Hidden THEN 2 ELSE 1
                  mi == [f |-> Shl(x.f, s) - 1, e |-> x.e - s]
              IN  Finish([ty |-> "h", w |-> <<job.w>>, mf |-> <<Shl(mi.f, mi.e - pl.e)>>, me |-> pl.e, pf |-> <<pl.f>>, pe |-> pl.e])

DownStep == /\ pc = "down"
            /\ LET d == Down(job.f, job.e, job.max)
               IN  Finish([ty |-> "h", f |-> <<job.f>>, e |-> job.e, max |-> job.max, w |-> <<d.w>>, st |-> d.st, acc |-> d.acc])

MulStep == /\ pc = "mul"
           /\ LET p == Product([f |-> job.a, e |-> 3], [f |-> job.b, e |-> -7])
              IN  Finish([fa |-> <<job.a>>, ea |-> 3, fb |-> <<job.b>>, eb |-> -7, f |-> <<p.f>>, e |-> p.e])

UnitStep == /\ pc = "step"
            /\ LET z == [f |-> job.f, e |-> 5]
                   u == Up(z)  l == Lower(z)
               IN  Finish([f |-> <<job.f>>, e |-> 5, uf |-> <<u.f>>, ue |-> u.e, lf |-> <<l.f>>, le |-> l.e, same |-> TRUE])

RoundStep == /\ pc = "round"
             /\ LET r == RoundUp(job.f, job.n)
                IN  Finish([f |-> <<job.f>>, n |-> job.n, up |-> r.up, acc |-> r.acc])

Next == \/ SplitValue \/ Normalise \/ Back \/ Bound \/ Raise \/ Bounded
        \/ DownStep \/ MulStep \/ UnitStep \/ RoundStep
        \/ (pc = "done" /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Val(w) == Decode("h", w)

C16 == pc = "done" =>
  CASE job.op = "conv" -> DiyConvOk(Fmt, Val(<<job.w>>), out)
    [] job.op = "bound" -> DiyBoundOk(Fmt, Val(<<job.w>>), out)
    [] job.op = "down" -> DiyDownOk(Fmt, Val(out.w), out)
    [] job.op = "mul" -> DiyMulOk(out)
    [] job.op = "step" -> DiyStepOk(out)
    [] job.op = "round" -> RoundOk(out)

\* shifts stay below the width of a word
ShiftsOk == /\ (pc = "down" /\ job.e + W <= MaxE /\ job.e + W >= MinE - PB) => Shift(job.e) \in 1..(W - 1)
            /\ (pc = "raise" /\ y.f \div 2 ^ Fmt.P % 2 = 1) =>
                 LET me == x.e - (IF x.f = Hidden THEN 2 ELSE 1) IN me - (y.e - (W - Fmt.P - 1)) \in 0..(W - 1)
=============================================================================
