------------------------------ MODULE Scanner -------------------------------
(***************************************************************************)
(* Recognition of the longest numeral, one character at a time.            *)
(*                                                                         *)
(* State:                                                                  *)
(*   ph    phase of the automaton                                          *)
(*   pos   characters seen                                                 *)
(*   acc   length of the longest numeral found so far (0: none)            *)
(*   kind  its kind: none, num, inf, nan                                   *)
(*   neg   minus sign seen                                                 *)
(*   ds    significant digits (no leading zeros), fd digits after the point*)
(*   eneg, ev   sign and (saturating) value of the exponent                *)
(***************************************************************************)
EXTENDS Chars, BigDec

MaxExp == 30000  \* greater exponents make no difference for mantissas of up to 2048 characters

ScanInit == [ph |-> "start", pos |-> 0, acc |-> 0, kind |-> "none", neg |-> FALSE,
             ds |-> <<>>, fd |-> 0, eneg |-> FALSE, ev |-> 0]

\* phases in which more characters can still extend the numeral
Running(st) == st.ph # "stop"

Goto(st, ph) == [st EXCEPT !.ph = ph, !.pos = @ + 1]
Accept(st, ph, kind) == [st EXCEPT !.ph = ph, !.pos = @ + 1, !.acc = st.pos + 1, !.kind = kind]
Stop(st) == [st EXCEPT !.ph = "stop"]

WithDigit(st, ph, d, fd) ==
  [st EXCEPT !.ph = ph, !.pos = @ + 1, !.acc = st.pos + 1, !.kind = "num",
             !.ds = IF @ = <<>> /\ d = 0 THEN @ ELSE Append(@, d), !.fd = @ + fd]

WithExpDigit(st, d) ==
  [st EXCEPT !.ph = "edig", !.pos = @ + 1, !.acc = st.pos + 1,
             !.ev = IF @ * 10 + d > MaxExp THEN MaxExp ELSE @ * 10 + d]

\* the infinity/nan words, letter by letter: phase |-> next letter, next phase, accepting
Word == [ i |-> [c |-> 110, ph |-> "in", ok |-> FALSE],
          in |-> [c |-> 102, ph |-> "inf", ok |-> TRUE],
          inf |-> [c |-> 105, ph |-> "infi", ok |-> FALSE],
          infi |-> [c |-> 110, ph |-> "infin", ok |-> FALSE],
          infin |-> [c |-> 105, ph |-> "infini", ok |-> FALSE],
          infini |-> [c |-> 116, ph |-> "infinit", ok |-> FALSE],
          infinit |-> [c |-> 121, ph |-> "infinity", ok |-> TRUE],
          n |-> [c |-> 97, ph |-> "na", ok |-> FALSE],
          na |-> [c |-> 110, ph |-> "nan", ok |-> TRUE] ]

Phases == {"start", "sign", "int", "dot", "frac", "e", "esign", "edig",
           "nanpar", "nanend", "infinity", "stop"} \cup DOMAIN Word \cup {"nan"}

BeginWord(st, c) == IF ToLower(c) = cli THEN Goto(st, "i")
                    ELSE IF ToLower(c) = cln THEN Goto(st, "n")
                    ELSE Stop(st)

ScanStep(st, c) ==
  CASE st.ph = "start" ->
         IF IsSign(c) THEN [Goto(st, "sign") EXCEPT !.neg = (c = cMinus)]
         ELSE IF IsDigit(c) THEN WithDigit(st, "int", Dig(c), 0)
         ELSE IF c = cDot THEN Goto(st, "dot")
         ELSE BeginWord(st, c)
    [] st.ph = "sign" ->
         IF IsDigit(c) THEN WithDigit(st, "int", Dig(c), 0)
         ELSE IF c = cDot THEN Goto(st, "dot")
         ELSE BeginWord(st, c)
    [] st.ph = "int" ->
         IF IsDigit(c) THEN WithDigit(st, "int", Dig(c), 0)
         ELSE IF c = cDot THEN Accept(st, "frac", "num")
         ELSE IF IsExpMark(c) THEN Goto(st, "e")
         ELSE Stop(st)
    [] st.ph = "dot" ->
         IF IsDigit(c) THEN WithDigit(st, "frac", Dig(c), 1) ELSE Stop(st)
    [] st.ph = "frac" ->
         IF IsDigit(c) THEN WithDigit(st, "frac", Dig(c), 1)
         ELSE IF IsExpMark(c) THEN Goto(st, "e")
         ELSE Stop(st)
    [] st.ph = "e" ->
         IF IsDigit(c) THEN WithExpDigit(st, Dig(c))
         ELSE IF IsSign(c) THEN [Goto(st, "esign") EXCEPT !.eneg = (c = cMinus)]
         ELSE Stop(st)
    [] st.ph \in {"esign", "edig"} ->
         IF IsDigit(c) THEN WithExpDigit(st, Dig(c)) ELSE Stop(st)
    [] st.ph = "nan" ->
         IF c = cOpen THEN Goto(st, "nanpar") ELSE Stop(st)
    [] st.ph = "nanpar" ->
         IF IsNanChar(c) THEN Goto(st, "nanpar")
         ELSE IF c = cClose THEN Accept(st, "nanend", "nan")
         ELSE Stop(st)
    [] st.ph \in DOMAIN Word ->
         LET w == Word[st.ph]
         IN  IF ToLower(c) # w.c THEN Stop(st)
             ELSE IF w.ok THEN Accept(st, w.ph, IF w.ph = "nan" THEN "nan" ELSE "inf")
             ELSE Goto(st, w.ph)
    [] OTHER -> Stop(st)

ScanFrom(st, s) == FoldLeft(ScanStep, st, s)
Scan(s) == ScanFrom(ScanInit, s)

-----------------------------------------------------------------------------
(* Results *)
Extent(st) == st.acc
IsNumber(st) == st.kind = "num"
IsZero(st) == st.kind = "num" /\ st.ds = <<>>
IsNonZero(st) == st.kind = "num" /\ st.ds # <<>>
IsNegative(st) == st.kind # "none" /\ st.neg

\* exact magnitude of a non-zero number
Literal(st) == [n |-> FromDigits(st.ds), x |-> (IF st.eneg THEN -st.ev ELSE st.ev) - st.fd]

=============================================================================
