---------------------------- MODULE FloatFormat -----------------------------
(***************************************************************************)
(* IEEE-754 binary formats and round-to-nearest-even, defined on exact     *)
(* decimals.  A format is described by                                     *)
(*   P     precision (significand bits, hidden bit included)               *)
(*   EMIN  exponent of the unit in the last place of subnormals            *)
(*   EMAX  exponent of the unit in the last place of the largest binade    *)
(* A value is [cls, neg, m, e]: cls in {"zero", "fin", "inf", "nan"},      *)
(* magnitude m * 2^e for "fin".  "tp" marks the significand 2^(P-1) of a   *)
(* binade above the first one, below which the spacing halves.             *)
(***************************************************************************)
EXTENDS BigDec

Binary64 == [P |-> 53, EMIN |-> -1074, EMAX |-> 971, words |-> 4, hi |-> 16, maxd |-> 17]
Binary32 == [P |-> 24, EMIN |-> -149,  EMAX |-> 104, words |-> 2, hi |-> 128, maxd |-> 9]

\* x87 extended precision: the leading bit is stored
Binary80 == [P |-> 64, EMIN |-> -16445, EMAX |-> 16320, words |-> 5, hi |-> 1, maxd |-> 21]

\* half precision: the library has no use for it, the models do
Binary16 == [P |-> 11, EMIN |-> -24, EMAX |-> 5, words |-> 1, hi |-> 1024, maxd |-> 5]

Format(ty) == IF ty = "h" THEN Binary16 ELSE IF ty = "f" THEN Binary32 ELSE IF ty = "x" THEN Binary80 ELSE Binary64

IsOdd(m) == m # <<>> /\ m[1] % 2 = 1

From48(a, b, c) == AddSmall(MulSmall(AddSmall(MulSmall(FromInt(a), 65536), b), 65536), c)

DecodeExtended(w) ==
  LET be == w[1] % 32768
      m == AddSmall(MulSmall(From48(w[2], w[3], w[4]), 65536), w[5])
      neg == w[1] >= 32768
      one == m = Pow2(63)
  IN  IF be = 32767
      THEN [cls |-> IF one THEN "inf" ELSE "nan", neg |-> neg, m |-> <<>>, e |-> 0, tp |-> FALSE]
      ELSE IF m = <<>>
      THEN [cls |-> "zero", neg |-> neg, m |-> <<>>, e |-> Binary80.EMIN, tp |-> FALSE]
      ELSE [cls |-> "fin", neg |-> neg, m |-> m, e |-> Binary80.EMIN + (IF be = 0 THEN 0 ELSE be - 1), tp |-> one /\ be > 1]

\* decode big-endian 16-bit words of the bit pattern
DecodeInterchange(ty, w) ==
  LET f == Format(ty)
      be == (w[1] % 32768) \div f.hi                    \* biased exponent
      top == IF f.words = 1 THEN w[1] % f.hi ELSE (w[1] % f.hi) * 65536 + w[2]
      frac == IF f.words <= 2 THEN FromInt(top)
              ELSE AddSmall(MulSmall(AddSmall(MulSmall(FromInt(top), 65536), w[3]), 65536), w[4])
      allones == 32768 \div f.hi - 1
      neg == w[1] >= 32768
      hidden == Pow2(f.P - 1)
  IN  IF be = allones
      THEN [cls |-> IF frac = <<>> THEN "inf" ELSE "nan", neg |-> neg, m |-> <<>>, e |-> 0, tp |-> FALSE]
      ELSE IF be = 0
      THEN [cls |-> IF frac = <<>> THEN "zero" ELSE "fin", neg |-> neg, m |-> frac, e |-> f.EMIN, tp |-> FALSE]
      ELSE [cls |-> "fin", neg |-> neg, m |-> Add(hidden, frac), e |-> f.EMIN + be - 1,
            tp |-> frac = <<>> /\ be > 1]

Decode(ty, w) == IF ty = "x" THEN DecodeExtended(w) ELSE DecodeInterchange(ty, w)

IsSubnormal(f, v) == v.cls = "fin" /\ Cmp(v.m, Pow2(f.P - 1)) < 0

\* exact magnitude
Exact(v) == Binary(v.m, v.e)

\* midpoints to the neighbours, i.e. ends of the rounding interval
UpperEnd(v) == Binary(AddSmall(MulSmall(v.m, 2), 1), v.e - 1)
LowerEnd(v) == IF v.tp THEN Binary(Sub(MulSmall(v.m, 4), <<1>>), v.e - 2)
            ELSE Binary(Sub(MulSmall(v.m, 2), <<1>>), v.e - 1)

\* does exact decimal X round (to nearest, ties to even) to finite v?
RoundsToFin(X, v) ==
  LET lo == CmpX(X, LowerEnd(v))
  IN  /\ lo > 0 \/ (lo = 0 /\ ~IsOdd(v.m))
      /\ LET up == CmpX(X, UpperEnd(v)) IN up < 0 \/ (up = 0 /\ ~IsOdd(v.m))

\* first magnitude that rounds to infinity; greatest one that rounds to zero
HugeBound(f) == Binary(Sub(Pow2(f.P + 1), <<1>>), f.EMAX - 1)
TinyBound(f) == Binary(<<1>>, f.EMIN - 1)

Overflows(f, X) == CmpX(X, HugeBound(f)) >= 0
Underflows(f, X) == CmpX(X, TinyBound(f)) <= 0

\* does X round to magnitude v (of any class)?
RoundsTo(f, X, v) == CASE v.cls = "fin"  -> RoundsToFin(X, v)
                       [] v.cls = "zero" -> Underflows(f, X)
                       [] v.cls = "inf"  -> Overflows(f, X)
                       [] OTHER -> FALSE

\* is X, which rounds to v, within 1/16 unit in the last place of an end of the
\* rounding interval of v, or is v so small that relative precision is lost?
NearBoundary(f, X, v) ==
  CASE v.cls = "fin" ->
         \/ CmpX(X, Binary(AddSmall(MulSmall(v.m, 16), 7), v.e - 4)) >= 0
         \/ CmpX(X, IF v.tp THEN Binary(Sub(MulSmall(v.m, 16), <<3>>), v.e - 4)
                    ELSE Binary(Sub(MulSmall(v.m, 16), <<7>>), v.e - 4)) <= 0
         \/ IsSubnormal(f, v)
    [] v.cls = "inf" -> CmpX(X, Binary(Add(Sub(Pow2(f.P + 4), <<8>>), <<1>>), f.EMAX - 4)) <= 0
    [] v.cls = "zero" -> TRUE
    [] OTHER -> FALSE

\* is there a decimal of less than n digits in the rounding interval of v?
ShorterExists(v, n) ==
  /\ n > 1
  /\ LET hi == UpperEnd(v)
         lo == LowerEnd(v)
         nd == NDig(hi.n)
         top == TopDigits(hi, n - 1)
         x == nd + hi.x - (n - 1)
         cut == [n |-> FromDigits(top), x |-> x]      \* greatest one <= hi
         one == <<1>> \o [i \in 1..(n - 2) |-> 0]
         cand == IF ~IsOdd(v.m) \/ CmpX(cut, hi) < 0 THEN cut
                 ELSE IF top = one THEN [n |-> FromDigits([i \in 1..(n - 1) |-> 9]), x |-> x - 1]
                 ELSE [n |-> Sub(cut.n, <<1>>), x |-> x]
         c == CmpX(cand, lo)
     IN  c > 0 \/ (c = 0 /\ ~IsOdd(v.m))

-----------------------------------------------------------------------------
(* Order of the values *)
ClassRank(v) == CASE v.cls = "zero" -> 0 [] v.cls = "fin" -> 1 [] v.cls = "inf" -> 2
CmpMag(u, v) == IF ClassRank(u) # ClassRank(v)
                THEN (IF ClassRank(u) < ClassRank(v) THEN -1 ELSE 1)
                ELSE IF u.cls # "fin" THEN 0
                ELSE IF u.e # v.e THEN (IF u.e < v.e THEN -1 ELSE 1)  \* both normal, or one subnormal
                ELSE Cmp(u.m, v.m)
\* three-way comparison of the values themselves (-0 = 0); not for NaNs
CmpVal(u, v) == IF u.cls = "zero" /\ v.cls = "zero" THEN 0
                ELSE IF u.neg # v.neg /\ u.cls # "zero" /\ v.cls # "zero" THEN (IF u.neg THEN -1 ELSE 1)
                ELSE LET neg == IF u.cls = "zero" THEN v.neg ELSE u.neg
                     IN  IF neg THEN CmpMag(v, u) ELSE CmpMag(u, v)

=============================================================================
