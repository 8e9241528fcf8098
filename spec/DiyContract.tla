---------------------------- MODULE DiyContract -----------------------------
(***************************************************************************)
(* The integer significand/exponent numbers f * 2^e of the library, f of W *)
(* bits, and the rendering of bits.  Significands are given as big-endian  *)
(* 16-bit words.                                                           *)
(***************************************************************************)
EXTENDS FloatFormat

Abs(i) == IF i < 0 THEN -i ELSE i
WordBits(w) == 16 * Len(w)
Normal(w) == w[1] >= 32768

\* a * 2^x  (x >= 0)
Scale2(a, x) == Mul(a, Pow2(x))

\* three-way comparison of a * 2^x and b * 2^y
CmpBin(a, x, b, y) == IF x >= y THEN Cmp(Scale2(a, x - y), b) ELSE Cmp(a, Scale2(b, y - x))

Dist(a, b) == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)

\* r: f, e - as constructed; nf, ne - normalised; dw, dst - converted back
DiyConvOk(fm, v, r) ==
  v.cls = "fin" =>
    /\ CmpBin(FromWords(r.f), r.e, v.m, v.e) = 0
    /\ Normal(r.nf)
    /\ CmpBin(FromWords(r.nf), r.ne, v.m, v.e) = 0
    /\ r.dst = 0
    /\ LET d == Decode(r.ty, r.dw) IN d.cls = "fin" /\ ~d.neg /\ d.m = v.m /\ d.e = v.e

\* normalised f * 2^e converted: v, status st, accurate (for all significands
\* which are max away at most)
DiyDownOk(fm, v, r) ==
  LET F == FromWords(r.f)
      Stands(g) == LET X == Binary(g, r.e)
                  IN  /\ RoundsTo(fm, X, v)
                      /\ r.st = (IF Overflows(fm, X) THEN 2 ELSE IF Underflows(fm, X) THEN 1 ELSE 0)
      m == FromWords(<<r.max>>)
      \* the conversion is the same just above the error bound
      Sure(a, b) == /\ RoundsTo(fm, Binary(a, r.e), v) /\ RoundsTo(fm, Binary(b, r.e), v)
                    /\ ~Overflows(fm, Binary(a, r.e)) /\ ~Underflows(fm, Binary(b, r.e))
  IN  /\ v.cls # "nan" /\ ~v.neg
      /\ r.acc => /\ Stands(F)
                  /\ r.max > 0 => Stands(Sub(F, m)) /\ Stands(Add(F, m))
      \* not without need
      /\ ~r.acc => \/ CmpX(Binary(F, r.e), Binary(<<1>>, fm.EMIN)) < 0
                   \/ ~Sure(Sub(F, AddSmall(m, 1)), AddSmall(Add(F, m), 1))

\* differences and comparison
DiySubOk(r) ==
  /\ FromWords(r.f) = Sub(FromWords(r.fa), FromWords(r.fb)) /\ r.fe = r.e
  /\ r.g = r.f /\ r.ge = r.e
  /\ r.eq = (r.fa = r.fb) /\ r.ne = (r.fa # r.fb)

\* (fa * 2^ea) * (fb * 2^eb) = f * 2^e up to one unit
DiyMulOk(r) ==
  LET unit == r.ea + r.eb + WordBits(r.f)
      exact == Mul(FromWords(r.fa), FromWords(r.fb))
  IN  /\ Abs(r.e - unit) <= 2
      /\ LET lowest == r.ea + r.eb
             got == Scale2(FromWords(r.f), r.e - lowest)
         IN  Cmp(Dist(got, exact), Scale2(<<1>>, unit - lowest)) <= 0

\* boundaries of v: lower mf * 2^me, upper pf * 2^pe; the lower one of the
\* smallest normal number may be closer than the midpoint
DiyBoundOk(fm, v, r) ==
  v.cls = "fin" =>
    /\ CmpBin(FromWords(r.pf), r.pe, AddSmall(MulSmall(v.m, 2), 1), v.e - 1) = 0
    /\ LET lm == IF v.tp THEN Sub(MulSmall(v.m, 4), <<1>>) ELSE Sub(MulSmall(v.m, 4), <<2>>)
           c == CmpBin(FromWords(r.mf), r.me, lm, v.e - 2)
       IN  IF v.m = Pow2(fm.P - 1) /\ v.e = fm.EMIN
           THEN c >= 0 /\ CmpBin(FromWords(r.mf), r.me, v.m, v.e) < 0
           ELSE c = 0

\* one unit up: uf, ue; one unit down: lf, le (a finer unit, if it was one)
DiyStepOk(r) ==
  LET f == FromWords(r.f)
  IN  /\ r.same
      /\ CmpBin(FromWords(r.uf), r.ue, AddSmall(f, 1), r.e) = 0
      /\ IF Cmp(f, <<1>>) > 0 THEN CmpBin(FromWords(r.lf), r.le, Sub(f, <<1>>), r.e) = 0
         ELSE r.le < r.e /\ CmpBin(AddSmall(FromWords(r.lf), 1), r.le, f, r.e) = 0

\* |f * 2^e - 10^k| <= 2^e / 2
PowerOk(r) ==
  LET f2 == MulSmall(FromWords(r.f), 2)
      \* both sides times 2^a * 10^b
      lhs == IF r.k >= 0 THEN (IF r.e >= 0 THEN Scale2(f2, r.e) ELSE f2)
             ELSE Shift10(IF r.e >= 0 THEN Scale2(f2, r.e) ELSE f2, -r.k)
      rhs == LET t == IF r.k >= 0 THEN Shift10(<<2>>, r.k) ELSE <<2>>
             IN  IF r.e < 0 THEN Scale2(t, -r.e) ELSE t
      unit == LET u == IF r.e >= 0 THEN Scale2(<<1>>, r.e) ELSE <<1>>
              IN  IF r.k < 0 THEN Shift10(u, -r.k) ELSE u
  IN  Normal(r.f) /\ Cmp(Dist(lhs, rhs), unit) <= 0

\* decision to round the n low bits of f up
RoundOk(r) ==
  LET p == Pow2(r.n)
      f == FromWords(r.f)
      q == FoldLeft(LAMBDA a, x : DivSmall(a, 2), f, [i \in 1..r.n |-> i])
      tail2 == MulSmall(Sub(f, Mul(q, p)), 2)
      c == Cmp(tail2, p)
  IN  /\ r.up = (c > 0 \/ (c = 0 /\ IsOdd(q)))
      /\ r.acc = (c # 0)

-----------------------------------------------------------------------------
Bit(w, i) == (w[((i - 1) \div 16) + 1] \div 2 ^ (15 - ((i - 1) % 16))) % 2   \* i-th from the top
BitCodes(w, from, to) == [i \in 1..(to - from + 1) |-> 48 + Bit(w, from + i - 1)]

IntBits(w, bits) == BitCodes(w, WordBits(w) - bits + 1, WordBits(w))
DoubleBits(w) == BitCodes(w, 1, 1) \o <<32>> \o BitCodes(w, 2, 12) \o <<32>> \o BitCodes(w, 13, 64)

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)

\* (f = <bits>, e = <e>)
StreamText(f, e) == <<40, 102, 32, 61, 32>> \o BitCodes(f, 1, WordBits(f))
                    \o <<44, 32, 101, 32, 61, 32>> \o IntText(e) \o <<41>>
=============================================================================
