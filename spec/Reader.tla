------------------------------- MODULE Reader --------------------------------
(***************************************************************************)
(* How the parser reads the caller's memory: one character at a time, with *)
(* words and exponents looked ahead at.  The string comes into being as it *)
(* is read: a character not read so far may be any, or the terminator.     *)
(* What lies behind the terminator, and whatever is read while something   *)
(* before it was not (it may be the terminator), is out of bounds.         *)
(*                                                                         *)
(* Checked, for all strings up to MaxLen: nothing out of bounds is read    *)
(* (C14), reading ends, the end delivered lies in the string (C14) and is  *)
(* the one of the automaton of Scanner, which needs no more characters     *)
(* than have been read (C09, C10) - unless the string is longer than       *)
(* MaxOffset, where the library stops.                                     *)
(***************************************************************************)
EXTENDS Scanner, TLC

CONSTANTS
  Alphabet, MaxLen,
  MaxOffset,
  Lazy,      \* TRUE; FALSE: letters of a word are all read, then compared
  Watchful   \* TRUE; FALSE: what is between parentheses is skipped up to the closing one

VARIABLES mem,     \* characters read so far, the terminator included
          pc, pos, cp,
          dot, sign, digits,
          kind, end

vars == <<mem, pc, pos, cp, dot, sign, digits, kind, end>>

NUL == 0  Poison == -1

Init == mem = <<>> /\ pc = "digits" /\ pos = 0 /\ cp = 0 /\ dot = FALSE /\ sign = FALSE
        /\ digits = FALSE /\ kind = "none" /\ end = 0

Ended == mem # <<>> /\ mem[Len(mem)] = NUL

\* what may be found at p (counted from 0)
See(p) == IF p >= 0 /\ p < Len(mem) THEN {mem[p + 1]}
          ELSE IF p = Len(mem) /\ ~Ended THEN (IF Len(mem) < MaxLen THEN Alphabet ELSE {}) \cup {NUL}
          ELSE {Poison}
Learn(p, c) == mem' = IF p = Len(mem) /\ c # Poison THEN Append(mem, c) ELSE mem

Is(c, lower) == ToLower(c) = lower
Keep(v) == UNCHANGED v
Beach(e) == pc' = "beach" /\ end' = e

\* mantissa ------------------------------------------------------------------
Mantissa ==
  /\ pc = "digits"
  /\ \E c \in See(pos) :
       LET further == pos <= MaxOffset
           stop == pc' = "beach" /\ end' = (IF digits' \/ kind # "none" THEN pos ELSE 0)
           next == IF further THEN pc' = "digits" /\ end' = 0 ELSE stop
           word(w) == IF pos = (IF sign THEN 1 ELSE 0) THEN pc' = w /\ end' = 0 ELSE stop
       IN  /\ Learn(pos, c)
           /\ pos' = pos + 1
           /\ cp' = pos + 1
           /\ digits' = (digits \/ IsDigit(c))
           /\ dot' = (dot \/ c = cDot)
           /\ sign' = (sign \/ (IsSign(c) /\ pos = 0))
           /\ CASE c = Poison -> pc' = "outside" /\ end' = 0
                [] IsDigit(c) -> next
                [] c = cDot -> IF dot THEN stop ELSE next
                [] IsSign(c) /\ pos = 0 -> next
                [] Is(c, cln) -> word("na")
                [] Is(c, cli) -> word("in")
                [] OTHER -> stop
           /\ Keep(kind)

\* words -----------------------------------------------------------------------
\* at pc a letter is expected at cp; then next
Letter(at, l, next) ==
  /\ pc = at
  /\ \E c \in See(cp) : /\ Learn(cp, c)
                        /\ pc' = IF c = Poison THEN "outside" ELSE IF Is(c, l) THEN next
                                 ELSE IF ~Lazy /\ next \in {"nan", "inf"} THEN "nothing"
                                 ELSE IF ~Lazy THEN next \o "?" ELSE "nothing"
  /\ cp' = cp + 1
  /\ Keep(<<pos, dot, sign, digits, kind, end>>)

\* the second letter read for nothing
Eager == /\ pc \in {"nan1?", "inf1?"}
         /\ \E c \in See(cp) : Learn(cp, c) /\ pc' = IF c = Poison THEN "outside" ELSE "nothing"
         /\ Keep(<<pos, cp, dot, sign, digits, kind, end>>)

Nothing == pc = "nothing" /\ Beach(IF digits THEN pos - 1 ELSE 0) /\ Keep(<<mem, pos, cp, dot, sign, digits, kind>>)

Found(k, e) == Beach(e) /\ kind' = k

Nan == \/ Letter("na", cla, "nan1") \/ Letter("nan1", cln, "nan")
       \/ /\ pc = "nan"
          /\ \E c \in See(cp) :
               /\ Learn(cp, c)
               /\ CASE c = Poison -> pc' = "outside" /\ Keep(<<end, kind>>)
                    [] c = cOpen -> pc' = "inside" /\ Keep(<<end, kind>>)
                    [] OTHER -> Found("nan", cp)
          /\ cp' = cp + 1
          /\ Keep(<<pos, dot, sign, digits>>)
       \/ /\ pc = "inside"
          /\ \E c \in See(cp) :
               /\ Learn(cp, c)
               /\ CASE c = Poison -> pc' = "outside" /\ Keep(<<end, kind>>)
                    [] IsNanChar(c) \/ (~Watchful /\ c # cClose) -> Keep(<<pc, end, kind>>)
                    [] c = cClose -> Found("nan", cp + 1)
                    [] OTHER -> Found("nan", pos + 2)
          /\ cp' = cp + 1
          /\ Keep(<<pos, dot, sign, digits>>)

Suffix == <<cln, cli, 116, 121>>
Inf == \/ Letter("in", cln, "inf1") \/ Letter("inf1", clf, "inf")
       \/ /\ pc \in {"inf", "inity"}
          /\ LET i == cp - pos - 2     \* letters of "inity"
                 l == IF pc = "inf" THEN cli ELSE Suffix[i]
             IN  \E c \in See(cp) :
                   /\ Learn(cp, c)
                   /\ CASE c = Poison -> pc' = "outside" /\ Keep(<<end, kind>>)
                        [] Is(c, l) /\ i = 4 -> Found("inf", cp + 1)
                        [] Is(c, l) /\ i < 4 -> pc' = "inity" /\ Keep(<<end, kind>>)
                        [] OTHER -> Found("inf", pos + 2)
          /\ cp' = cp + 1
          /\ Keep(<<pos, dot, sign, digits>>)

\* exponent ------------------------------------------------------------------
Exponent ==
  \/ /\ pc = "beach"
     /\ IF kind # "none" \/ end = 0
        THEN pc' = "done" /\ Keep(<<mem, cp, kind>>)
        ELSE \E c \in See(end) : /\ Learn(end, c)
                                 /\ cp' = end + 1
                                 /\ kind' = "num"
                                 /\ pc' = IF c = Poison THEN "outside" ELSE IF IsExpMark(c) THEN "mark" ELSE "done"
     /\ Keep(<<pos, dot, sign, digits, end>>)
  \/ /\ pc \in {"mark", "esign", "exponent"}
     /\ \E c \in See(cp) :
          /\ Learn(cp, c)
          /\ CASE c = Poison -> pc' = "outside" /\ Keep(end)
               [] IsDigit(c) -> pc' = "exponent" /\ end' = cp + 1
               [] pc = "mark" /\ IsSign(c) -> pc' = "esign" /\ Keep(end)
               [] OTHER -> pc' = "done" /\ Keep(end)
     /\ cp' = cp + 1
     /\ Keep(<<pos, dot, sign, digits, kind>>)

Next == Mantissa \/ Nan \/ Inf \/ Eager \/ Nothing \/ Exponent
        \/ (pc \in {"done", "outside"} /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* nothing behind the terminator is read
C14 == pc # "outside"
\* the end lies in the string
C14end == pc = "done" => end >= 0 /\ end <= Len(mem) /\ \A i \in 1..end : mem[i] # NUL
Ends == <>(pc \in {"done", "outside"})

\* the longest numeral; its kind
C09 == (pc = "done" /\ Len(mem) <= MaxOffset) =>
         LET st == Scan(mem) IN Extent(st) = end /\ st.kind = kind /\ (st.ph \in {"stop", "nanend", "infinity"} \/ Ended)
=============================================================================
