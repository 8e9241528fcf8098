------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* What a numeric string is, stated without saying how to recognise it:    *)
(*                                                                         *)
(*   numeral  ::= [sign] (decimal | infinity | nan)                        *)
(*   decimal  ::= mantissa [exponent]                                      *)
(*   mantissa ::= digits, optionally with one point, at least one digit    *)
(*   exponent ::= (e|E) [sign] digit+                                      *)
(*   infinity ::= inf | infinity         nan ::= nan | nan( [A-Za-z0-9_]* )*)
(*                                                                         *)
(* and what it denotes.  Parsing shall consume the longest prefix that is  *)
(* a numeral.  (Scanner.tla defines the same by a character automaton; TLC *)
(* checks that the two agree.)                                             *)
(***************************************************************************)
EXTENDS Chars, BigDec, FiniteSets

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

\* point positions: the number of digits left of the point
DotsIn(s) == {i \in 1..Len(s) : s[i] = cDot}
IsMantissa(s) ==
  /\ \E i \in 1..Len(s) : IsDigit(s[i])
  /\ \A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] = cDot
  /\ Cardinality(DotsIn(s)) <= 1

Unsigned(s) == IF Len(s) > 0 /\ IsSign(s[1]) THEN SubSeq(s, 2, Len(s)) ELSE s

IsExponent(s) ==
  /\ Len(s) > 1
  /\ IsExpMark(s[1])
  /\ LET d == Unsigned(SubSeq(s, 2, Len(s))) IN Len(d) > 0 /\ AllDigits(d)

\* the lengths of the mantissa for which s is a decimal
Splits(s) == {i \in 1..Len(s) : /\ IsMantissa(SubSeq(s, 1, i))
                                /\ i = Len(s) \/ IsExponent(SubSeq(s, i + 1, Len(s)))}

IsDecimal(s) == Splits(s) # {}
IsInfinity(s) == ToLowerSeq(s) \in {wInf, wInfinity}
IsNan(s) == \/ ToLowerSeq(s) = wNan
            \/ /\ Len(s) >= 5
               /\ ToLowerSeq(SubSeq(s, 1, 3)) = wNan
               /\ s[4] = cOpen /\ s[Len(s)] = cClose
               /\ \A i \in 5..(Len(s) - 1) : IsNanChar(s[i])

IsNumeral(s) == LET u == Unsigned(s) IN IsDecimal(u) \/ IsInfinity(u) \/ IsNan(u)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LongestPrefix(s) == MaxOf({0} \cup {n \in 1..Len(s) : IsNumeral(SubSeq(s, 1, n))})

Kind(s) == LET u == Unsigned(s) IN
           IF IsDecimal(u) THEN "num" ELSE IF IsInfinity(u) THEN "inf" ELSE IF IsNan(u) THEN "nan" ELSE "none"
Negative(s) == Len(s) > 0 /\ s[1] = cMinus

-----------------------------------------------------------------------------
(* Denotation of a decimal: n * 10^x *)
RECURSIVE IntOf(_)
IntOf(ds) == IF ds = <<>> THEN 0 ELSE 10 * IntOf(SubSeq(ds, 1, Len(ds) - 1)) + Dig(ds[Len(ds)])

DigitsOf(s) == SelectSeq(s, IsDigit)

Denotes(s) ==
  LET u == Unsigned(s)
      i == CHOOSE k \in Splits(u) : TRUE
      man == SubSeq(u, 1, i)
      frac == IF DotsIn(man) = {} THEN 0 ELSE i - (CHOOSE d \in DotsIn(man) : TRUE)
      mds == DigitsOf(man)
      ex == IF i = Len(u) THEN 0
            ELSE LET e == SubSeq(u, i + 2, Len(u))
                     v == IntOf(Unsigned(e))
                 IN  IF Negative(e) THEN -v ELSE v
  IN  [n |-> FromDigits([k \in 1..Len(mds) |-> Dig(mds[k])]), x |-> ex - frac]
=============================================================================
