-------------------------------- MODULE Point --------------------------------
(***************************************************************************)
(* The default fallback where the C library's decimal point is another     *)
(* one, of one or several characters: what may belong to the value is      *)
(* copied, one character per step, with the point replaced by the one the  *)
(* conversion of the C library expects, which is then called; its end is   *)
(* translated back.                                                        *)
(*                                                                         *)
(* Checked for all strings up to MaxLen: end and value are those of the    *)
(* conversion in the "C" locale (C20).  The conversion itself is given by  *)
(* the longest prefix of its grammar: Grammar, preceded by blanks, and     *)
(* hexadecimal numbers.                                                    *)
(***************************************************************************)
EXTENDS Grammar, SequencesExt, TLC

CONSTANTS Alphabet, MaxLen,
          Points,    \* decimal points
          Takes,     \* "any": everything a value may consist of; "digits": of decimals only; "all": whatever comes
          Shift      \* TRUE; FALSE: the end is taken as if points were single characters

MC_Points == {<<46>>, <<44>>, <<217, 171>>}

MC_OnlyPoint == {<<46>>}

VARIABLES str, point, pc, cp, loc, pe, end, val
vars == <<str, point, pc, cp, loc, pe, end, val>>

cSpace == 32
IsBlank(c) == c = cSpace \/ (c >= 9 /\ c <= 13)
IsHexMark(c) == c = 120 \/ c = 88
IsHexDigit(c) == IsDigit(c) \/ (ToLower(c) >= 97 /\ ToLower(c) <= 102)
IsLetter(c) == ToLower(c) >= 97 /\ ToLower(c) <= 122

-----------------------------------------------------------------------------
(* The conversion of the C library *)
IsHex(u) == /\ Len(u) > 2 /\ u[1] = c0 /\ IsHexMark(u[2])
            /\ LET m == SubSeq(u, 3, Len(u)) IN
               /\ \E i \in 1..Len(m) : IsHexDigit(m[i])
               /\ \A i \in 1..Len(m) : IsHexDigit(m[i]) \/ m[i] = cDot
               /\ Cardinality(DotsIn(m)) <= 1
RECURSIVE Blanks(_)
Blanks(s) == IF s # <<>> /\ IsBlank(Head(s)) THEN 1 + Blanks(Tail(s)) ELSE 0
\* in the "C" locale
Accepted(s) == LET b == Blanks(s)
                   t == SubSeq(s, b + 1, Len(s))
                   n == MaxOf({0} \cup {k \in 1..Len(t) : LET p == SubSeq(t, 1, k) IN IsNumeral(p) \/ IsHex(Unsigned(p))})
               IN  IF n = 0 THEN 0 ELSE b + n

\* a text as the "C" locale would spell it; where that means nothing, it is Junk
Junk == 1
RECURSIVE Respell(_, _)
Respell(s, p) == IF s = <<>> THEN <<>>
                 ELSE IF IsPrefix(p, s) THEN <<cDot>> \o Respell(SubSeq(s, Len(p) + 1, Len(s)), p)
                 ELSE <<IF Head(s) = cDot THEN Junk ELSE Head(s)>> \o Respell(Tail(s), p)

\* with the point p: end and value (as it would be spelled)
Converted(s, p) == LET r == Respell(s, p)
                       n == Accepted(r)
                       v == SubSeq(r, 1, n)
                   IN  [end |-> n + (Len(p) - 1) * Cardinality(DotsIn(v)), val |-> v]

-----------------------------------------------------------------------------
Init == /\ str = <<>> /\ point \in Points /\ pc = "string" /\ cp = 0 /\ loc = <<>> /\ pe = 0
        /\ end = 0 /\ val = <<>>

Grow == /\ pc = "string" /\ Len(str) < MaxLen
        /\ \E c \in Alphabet : str' = Append(str, c)
        /\ UNCHANGED <<point, pc, cp, loc, pe, end, val>>

\* the point is as in the "C" locale: nothing to do
Direct == /\ pc = "string" /\ point = <<cDot>>
          /\ LET r == Converted(str, point) IN end' = r.end /\ val' = r.val
          /\ pc' = "done"
          /\ UNCHANGED <<str, point, cp, loc, pe>>

Start == /\ pc = "string" /\ point # <<cDot>>
         /\ pc' = IF Takes = "digits" THEN "copy" ELSE "blanks"
         /\ UNCHANGED <<str, point, cp, loc, pe, end, val>>

More == cp < Len(str)
Cur == str[cp + 1]

Blank == /\ pc = "blanks"
         /\ IF More /\ IsBlank(Cur) THEN loc' = Append(loc, Cur) /\ cp' = cp + 1 /\ UNCHANGED pc
            ELSE pc' = "copy" /\ UNCHANGED <<loc, cp>>
         /\ UNCHANGED <<str, point, pe, end, val>>

Taken(c) == CASE Takes = "all" -> TRUE
              [] Takes = "digits" -> IsDigit(c) \/ IsSign(c) \/ IsExpMark(c)
              [] OTHER -> IsDigit(c) \/ IsLetter(c) \/ IsSign(c) \/ c \in {95, cOpen, cClose}

Copy == /\ pc = "copy" /\ More
        /\ \/ /\ Cur = cDot /\ pe = 0
              /\ loc' = loc \o point /\ pe' = Len(loc')
           \/ /\ Cur # cDot /\ Taken(Cur)
              /\ loc' = Append(loc, Cur) /\ UNCHANGED pe
        /\ cp' = cp + 1
        /\ UNCHANGED <<str, point, pc, end, val>>

Convert == /\ pc = "copy" /\ ~ENABLED Copy
           /\ LET r == Converted(loc, point) IN
              /\ end' = IF Shift /\ pe > 0 /\ r.end >= pe THEN r.end - (Len(point) - 1) ELSE r.end
              /\ val' = r.val
           /\ pc' = "done"
           /\ UNCHANGED <<str, point, cp, loc, pe>>

Next == Grow \/ Direct \/ Start \/ Blank \/ Copy \/ Convert \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
C20 == pc = "done" => LET r == Converted(str, <<cDot>>) IN end = r.end /\ val = r.val
\* the same for numerals of the library's own grammar only, which is all that atof() hands over
Numerals == (pc = "done" /\ LongestPrefix(str) > 0 /\ IsDecimal(Unsigned(SubSeq(str, 1, LongestPrefix(str)))) /\ ~IsHex(Unsigned(SubSeq(str, 1, Accepted(str)))))
            => end = LongestPrefix(str)

\* generation: all the strings
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o " " \o Text(Tail(s))
Emit == (pc = "done" /\ str # <<>>) => PrintT("GEN " \o Text(str))
=============================================================================
