---------------------------- MODULE MC_Rounding -----------------------------
(***************************************************************************)
(* The rounding predicates of FloatFormat on a toy format against a direct *)
(* definition: every decimal rounds to exactly one value, and that is the  *)
(* nearest one, the even one of two equally near ones.                     *)
(***************************************************************************)
EXTENDS FloatFormat, FiniteSets, TLC

CONSTANTS P, MaxN
EMIN == -6
EMAX == 3
Xs == {-3, -2, -1, 0}

Fmt == [P |-> P, EMIN |-> EMIN, EMAX |-> EMAX]

HB == 2 ^ (P - 1)
Fin(m, e) == [cls |-> "fin", neg |-> FALSE, m |-> FromInt(m), e |-> e, tp |-> m = HB /\ e > EMIN]
Zero == [cls |-> "zero", neg |-> FALSE, m |-> <<>>, e |-> 0, tp |-> FALSE]
Inf == [cls |-> "inf", neg |-> FALSE, m |-> <<>>, e |-> 0, tp |-> FALSE]

Values == {Zero, Inf} \cup {Fin(m, EMIN) : m \in 1..(HB - 1)}
          \cup {Fin(m, e) : m \in HB..(2 * HB - 1), e \in EMIN..EMAX}

\* plain integer arithmetic: everything scaled by 2^-EMIN * 10^4
Scale == 10 ^ 3 * 2 ^ (-EMIN + 1)
ValueInt(v) == IF v.cls = "zero" THEN 0
               ELSE IF v.cls = "inf" THEN 2 * HB * 2 ^ EMAX * Scale
               ELSE (IF v.m = <<>> THEN 0 ELSE v.m[1]) * (IF v.e >= 0 THEN 2 ^ v.e * Scale ELSE Scale \div 2 ^ (-v.e))
DecInt(n, x) == n * (IF x >= 0 THEN 10 ^ x * Scale ELSE Scale \div 10 ^ (-x))

Ints == TLCEval([v \in Values |-> ValueInt(v)])

Abs(i) == IF i < 0 THEN -i ELSE i
Odd(v) == v.cls = "fin" /\ v.m[1] % 2 = 1
Nearest(n, x) ==
  LET X == DecInt(n, x)
      d == TLCEval([v \in Values |-> Abs(X - Ints[v])])
      least == CHOOSE i \in {d[v] : v \in Values} : \A v \in Values : i <= d[v]
      best == {v \in Values : d[v] = least}
  IN  IF Cardinality(best) = 1 THEN CHOOSE v \in best : TRUE
      ELSE CHOOSE v \in best : ~Odd(v)

VARIABLES n, x
Init == n = 1 /\ x \in Xs
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED x
Spec == Init /\ [][Next]_<<n, x>>

D == [n |-> FromInt(n), x |-> x]
ExactlyOne == Cardinality({v \in Values : RoundsTo(Fmt, D, v)}) = 1
IsNearest == RoundsTo(Fmt, D, Nearest(n, x))
\* far from the ends of every rounding interval, nearness is not claimed
Window == LET v == Nearest(n, x) IN
          (v.cls = "fin" /\ ~IsSubnormal(Fmt, v) /\ DecInt(n, x) = ValueInt(v)) => ~NearBoundary(Fmt, D, v)
=============================================================================
