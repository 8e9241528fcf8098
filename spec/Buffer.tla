------------------------------- MODULE Buffer --------------------------------
(***************************************************************************)
(* Printing into the caller's memory: sign, digits, then the layout in     *)
(* place - digits are moved, zeros filled, point, exponent and terminator  *)
(* stored - one primitive per step.  Memory consists of bytes, a character *)
(* of W of them.  Digits are tokens which can be told apart, so that this  *)
(* covers the printing of any digits; every number of digits and every     *)
(* power of the two formats is an initial state: at their real sizes.      *)
(*                                                                         *)
(* Checked: the text which ends up there is the one of Layout, whatever    *)
(* the memory contained, nothing outside of Size characters is ever        *)
(* touched, and the length returned is right.                              *)
(***************************************************************************)
EXTENDS Layout, TLC

CONSTANTS
  W,         \* bytes per character
  MaxLen,    \* most digits
  MinDot,    \* least (negated) and
  MaxDot,    \*   greatest place of the point, relative to the first digit
  Size,      \* characters in the buffer
  Scaled,    \* TRUE; FALSE: characters are moved as if they were bytes
  Overlaps   \* TRUE; FALSE: moves go upward, character by character, though the places overlap

T == 16
Least == -MinDot

\* digit i of n, as a token
Digits(n) == [i \in 1..n |-> 1000 + i]

VARIABLES mem,      \* byte -> <<character, number of the byte>>
          lo, hi,   \* touched so far: lo..hi-1
          neg, len, k,
          at,       \* where the number starts
          pc, got,     \* digits stored
          ret

vars == <<mem, lo, hi, neg, len, k, at, pc, got, ret>>

Garbage == <<0, 0>>
ch(c, j) == <<c, j>>

Init == /\ neg \in BOOLEAN
        /\ len \in 1..MaxLen
        /\ \E dot \in Least..MaxDot : k = dot - len
        /\ mem = <<>>
        /\ lo = 0 /\ hi = 0 /\ at = 0 /\ got = 0 /\ ret = 0
        /\ pc = "sign"

Byte(m, b) == IF b \in DOMAIN m THEN m[b] ELSE Garbage
Touch(from, n) == IF n = 0 THEN UNCHANGED <<lo, hi>>
                  ELSE /\ lo' = IF from * W < lo THEN from * W ELSE lo
                       /\ hi' = MaxI(hi, (from + n) * W)

\* mem with n times the character c, from place p on
Stored(m, p, c, n) == [b \in (p * W)..((p + n) * W - 1) |-> ch(c, (b - p * W) % W)] @@ m
Copied(m, d, s, n) == [b \in (d * W)..(d * W + n - 1) |-> Byte(m, b - d * W + s * W)] @@ m
RECURSIVE Upward(_, _, _, _)
Upward(m, d, s, n) == IF n = 0 THEN m ELSE Upward(Copied(m, d, s, W), d + 1, s + 1, n - 1)

Put(p, c) == /\ mem' = Stored(mem, p, c, 1)
             /\ Touch(p, 1)
Fill(p, c, n) == /\ mem' = Stored(mem, p, c, n)
                 /\ Touch(p, n)
Move(d, s, n) == /\ mem' = IF ~Scaled THEN Copied(mem, d, s, n)
                           ELSE IF ~Overlaps THEN Upward(mem, d, s, n)
                           ELSE Copied(mem, d, s, n * W)
                 /\ Touch(d, n)

Go(next) == pc' = next
Same(v) == UNCHANGED v
Pos(n) == IF n > 0 THEN n ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n

Dot == len + k
Fixed == <<neg, len, k>>

StoreSign == pc = "sign" /\ Put(0, cMinus) /\ at' = (IF neg THEN 1 ELSE 0) /\ Go("digits") /\ Same(<<Fixed, got, ret>>)

StoreDigit == /\ pc = "digits"
              /\ Put(at + got, Code(Digits(len))[got + 1])
              /\ got' = got + 1
              /\ Go(IF got + 1 < len THEN "digits"
                    ELSE IF Scientific(T, Digits(len), k) THEN IF len > 1 THEN "smove" ELSE "se"
                    ELSE "dmove")
              /\ Same(<<Fixed, at, ret>>)

\* plain notation
From == Pos(Dot)
To == IF Dot > 0 THEN From + (IF k < 0 THEN 1 ELSE 0) ELSE 2 - Dot
Left == IF Dot > 0 THEN 0 ELSE 2 - Dot
End == len + Pos(k) + (To - From)

Step(at0, act, next) == pc = at0 /\ act /\ Go(next) /\ Same(<<Fixed, at, got, ret>>)

PlainMove  == Step("dmove", Move(at + To, at + From, Pos(len - From)), "dleft")
PlainLeft  == Step("dleft", Fill(at, c0, Left), "dright")
PlainRight == Step("dright", Fill(at + len, c0, Pos(k)), "ddot")
PlainDot   == Step("ddot", Put(at + (IF Dot > 0 THEN Dot ELSE 1), cDot), "dend")
PlainEnd   == /\ pc = "dend" /\ Put(at + End, 0) /\ Go("done")
              /\ ret' = at + End
              /\ Same(<<Fixed, at, got>>)

\* with exponent
E == Dot - 1
Mantissa == len + (IF len > 1 THEN 1 ELSE 0)
Mark == at + Mantissa
ExpAt == Mark + 1 + (IF E < 0 THEN 1 ELSE 0)
Big == IF Abs(E) >= 100 THEN 1 ELSE 0

SciMove == Step("smove", Move(at + 2, at + 1, len - 1), "sdot")
SciDot  == Step("sdot", Put(at + 1, cDot), "se")
SciMark == Step("se", Put(Mark, cle), "ssign")
SciSign == Step("ssign", Put(Mark + 1, cMinus), "shundreds")
SciHund == Step("shundreds", Put(ExpAt, c0 + (Abs(E) \div 100)), "stens")
SciTens == Step("stens", Put(ExpAt + Big, c0 + ((Abs(E) \div 10) % 10)), "sones")
SciOnes == Step("sones", Put(ExpAt + Big + 1, c0 + (Abs(E) % 10)), "send")
SciEnd  == /\ pc = "send" /\ Put(ExpAt + Big + 2, 0) /\ Go("done")
           /\ ret' = ExpAt + Big + 2
           /\ Same(<<Fixed, at, got>>)

Next == StoreSign \/ StoreDigit \/ PlainMove \/ PlainLeft \/ PlainRight \/ PlainDot \/ PlainEnd
        \/ SciMove \/ SciDot \/ SciMark \/ SciSign \/ SciHund \/ SciTens \/ SciOnes \/ SciEnd
        \/ (pc = "done" /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Whole(p) == \A j \in 0..(W - 1) : Byte(mem, p * W + j)[2] = j /\ Byte(mem, p * W + j)[1] = Byte(mem, p * W)[1]
CharAt(p) == IF Whole(p) THEN Byte(mem, p * W)[1] ELSE -1
Wanted == NumText(T, neg, Digits(len), k)

\* nothing before the buffer or beyond its size is touched
C04 == lo >= 0 /\ hi <= Size * W
\* the length returned is the number of characters before the terminator
C04end == pc = "done" => CharAt(ret) = 0 /\ \A p \in 0..(ret - 1) : CharAt(p) # 0
\* the text is the canonical one
C03 == pc = "done" => /\ ret = Len(Wanted)
                      /\ \A p \in 0..(ret - 1) : CharAt(p) = Wanted[p + 1]
=============================================================================
