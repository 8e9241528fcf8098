------------------------------- MODULE Chars --------------------------------
(* Character codes and classes (ASCII; wide characters use the same codes). *)
EXTENDS Integers, Sequences

cPlus == 43  cMinus == 45  cDot == 46  c0 == 48  c9 == 57
cA == 65 cE == 69 cF == 70 cI == 73 cN == 78 cT == 84 cY == 89 cZ == 90
cOpen == 40 cClose == 41 cUnderscore == 95

cle == 101  clf == 102  cli == 105  cln == 110  cla == 97

IsDigit(c) == c >= c0 /\ c <= c9
Dig(c) == c - c0
ToLower(c) == IF c >= cA /\ c <= cZ THEN c + 32 ELSE c
IsSign(c) == c = cPlus \/ c = cMinus
IsExpMark(c) == ToLower(c) = cle
IsAlpha(c) == ToLower(c) >= cla /\ ToLower(c) <= 122
IsNanChar(c) == IsDigit(c) \/ IsAlpha(c) \/ c = cUnderscore

\* words, in lower case
wInf == <<105, 110, 102>>
wInfinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
wNan == <<110, 97, 110>>

ToLowerSeq(s) == [i \in 1..Len(s) |-> ToLower(s[i])]
=============================================================================
