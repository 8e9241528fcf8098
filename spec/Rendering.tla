------------------------------ MODULE Rendering -----------------------------
(***************************************************************************)
(* How the library renders bits: a string of them, most significant first, *)
(* one per step, which is then taken apart by inserting blanks.  (Where    *)
(* the second blank goes depends on the first being there already.)        *)
(*                                                                         *)
(* Bits      of the number rendered                                        *)
(* Blanks    positions of insertion, in order, for a double                *)
(***************************************************************************)
EXTENDS DiyContract, TLC

CONSTANTS Bits, Blanks, Kinds
DoubleBlanks == <<1, 13>>
Swapped == <<13, 1>>

Words == IF Bits < 16 THEN 1 ELSE Bits \div 16

\* numbers with one bit set, one bit clear, runs of bits, and some others
OfBits(f(_)) == [k \in 1..Words |-> LET S[i \in 0..16] == IF i = 0 THEN 0 ELSE 2 * S[i - 1] + f(16 * (k - 1) + i) IN S[16]]
One == {OfBits(LAMBDA i : IF i = b THEN 1 ELSE 0) : b \in 1..(16 * Words)}
But == {OfBits(LAMBDA i : IF i = b THEN 0 ELSE 1) : b \in 1..(16 * Words)}
Run == {OfBits(LAMBDA i : IF i <= b THEN 1 ELSE 0) : b \in 0..(16 * Words)}
Odd == {[k \in 1..Words |-> (a * 4099 + k * 7919) % 65536] : a \in 0..40}
\* only what fits a number of Bits bits
Numbers == {w \in One \cup But \cup Run \cup Odd : Bits >= 16 \/ w[1] < 2 ^ Bits}

VARIABLES ph, kind, w, n, tx
vars == <<ph, kind, w, n, tx>>

Init == ph = "bits" /\ kind \in Kinds /\ w \in Numbers /\ n = 0 /\ tx = <<>>

EmitBit == /\ ph = "bits" /\ n < Bits
           /\ tx' = Append(tx, 48 + Bit(w, 16 * Words - Bits + n + 1)) /\ n' = n + 1
           /\ UNCHANGED <<ph, kind, w>>
Filled == /\ ph = "bits" /\ n = Bits /\ n' = 0
          /\ ph' = (IF kind = "double" THEN "blanks" ELSE "done") /\ UNCHANGED <<kind, w, tx>>
Insert == /\ ph = "blanks" /\ n < Len(Blanks)
          /\ tx' = SubSeq(tx, 1, Blanks[n + 1]) \o <<32>> \o SubSeq(tx, Blanks[n + 1] + 1, Len(tx)) /\ n' = n + 1
          /\ UNCHANGED <<ph, kind, w>>
Inserted == ph = "blanks" /\ n = Len(Blanks) /\ ph' = "done" /\ UNCHANGED <<kind, w, n, tx>>
Rest == ph = "done" /\ UNCHANGED vars

Next == EmitBit \/ Filled \/ Insert \/ Inserted \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == ph = "done" => tx = (IF kind = "double" THEN DoubleBits(w) ELSE IntBits(w, Bits))
Ends == <>(ph = "done")
=============================================================================
