----------------------------- MODULE MC_Entail ------------------------------
(***************************************************************************)
(* The contract against itself, at a toy format: the clauses about single  *)
(* calls leave exactly one reply to a literal, and they entail the ones    *)
(* about several calls - what C02, C06 and C15 claim on top of C01, C03,   *)
(* C07 and C08 is that the same holds without looking inside.              *)
(***************************************************************************)
EXTENDS Contract, FiniteSets, TLC

CONSTANTS P, MaxN, MaxText, Ruinous  \* Ruinous: TRUE drops ties to even from the replies (negative control)

Fmt == [P |-> P, EMIN |-> -5, EMAX |-> 2, maxd |-> 3]
HB == 2 ^ (P - 1)
T == 2
Fin(neg, m, e) == [cls |-> "fin", neg |-> neg, m |-> FromInt(m), e |-> e, tp |-> m = HB /\ e > Fmt.EMIN]
Of(cls, neg) == [cls |-> cls, neg |-> neg, m |-> <<>>, e |-> 0, tp |-> FALSE]
Values == UNION {{Fin(neg, m, Fmt.EMIN) : m \in 1..(HB - 1)} \cup {Fin(neg, m, e) : m \in HB..(2 * HB - 1), e \in Fmt.EMIN..Fmt.EMAX}
                 \cup {Of("zero", neg), Of("inf", neg)} : neg \in BOOLEAN}
Finite == {v \in Values : v.cls = "fin"}

\* spellings of n * 10^x
Digits(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>
Plain(neg, n, x) == Sign(neg) \o Code(Digits(n)) \o <<cle>> \o (IF x < 0 THEN <<cMinus>> ELSE <<cPlus>>) \o Code(Digits(IF x < 0 THEN -x ELSE x))
Pointed(neg, n, x) == Sign(neg) \o <<c0, c0, cDot>> \o Code(Digits(n)) \o <<c0, 69>> \o Code(<<0>>) \o Code(Digits(x + Len(Digits(n))))
Strings == {Plain(neg, n, x) : neg \in BOOLEAN, n \in 0..MaxN, x \in -3..1}
           \cup {Pointed(neg, n, x) : neg \in {FALSE}, n \in {k \in 0..MaxN : k % 3 = 0}, x \in 0..1}

Partners == {Plain(neg, n, x) : neg \in BOOLEAN, n \in {k \in 0..MaxN : k % 4 \in {0, 1}}, x \in -3..1}

\* the replies which C07 and C08 leave
Tied(st, v) == v.cls = "fin" /\ IsNonZero(st) /\ (CmpX(Literal(st), UpperEnd(v)) = 0 \/ CmpX(Literal(st), LowerEnd(v)) = 0)
Fits(st, v) == \/ ValueOk(Fmt, st, v)
               \/ Ruinous /\ Tied(st, v) /\ v.neg = IsNegative(st)
RepliesTo(st) == TLCEval({r \in Values \X (0..2) : Fits(st, r[1]) /\ RangeOk(Fmt, st, r[1], r[2])})
\* texts which C01 and C03 leave to a value
Texts == TLCEval([w \in Finite |->
           {NumText(T, w.neg, d, x) : d \in {Digits(n) : n \in {k \in 1..MaxText : k % 10 # 0}}, x \in -5..3} ])
Allowed(w) == {x \in Texts[w] : Identifies(w, x)}

-----------------------------------------------------------------------------
VARIABLES ph,      \* "one": a call has been made, "two": another one, "print": a value has been printed
          a, ra,   \* scan of the literal and reply (or the texts allowed to v)
          b, rb,
          v, tx    \* value and text
vars == <<ph, a, ra, b, rb, v, tx>>

No == [none |-> TRUE]
Init == /\ \/ ph = "one" /\ a \in {Scan(t) : t \in Strings} /\ v = No
           \/ ph = "value" /\ a = No /\ v \in Finite
        /\ ra = <<>> /\ b = No /\ rb = <<>> /\ tx = <<>>

Reply1 == /\ ph = "one" /\ ra = <<>>
          /\ \E r \in Values \X (0..2) : /\ Fits(a, r[1]) /\ RangeOk(Fmt, a, r[1], r[2])
                                        /\ ra' = r
          /\ UNCHANGED <<ph, a, b, rb, v, tx>>
\* the second literal: not far from the first
Second == /\ ph = "one" /\ ra # <<>>
          /\ ph' = "two" /\ b' \in {Scan(t) : t \in Partners}
          /\ rb' \in RepliesTo(b')
          /\ UNCHANGED <<a, ra, v, tx>>
Consider == /\ ph = "value"
            /\ ph' = "texts" /\ ra' = Allowed(v)
            /\ UNCHANGED <<a, b, rb, v, tx>>
PrintIt == /\ ph = "texts"
           /\ ph' = "print" /\ tx' \in ra
           /\ UNCHANGED <<a, ra, b, rb, v>>
\* and parsed
Parse == /\ ph = "print" /\ ph' = "back"
         /\ b' = Scan(tx)
         /\ rb' \in RepliesTo(b')
         /\ UNCHANGED <<a, ra, v, tx>>
Rest == ph \in {"two", "back"} /\ UNCHANGED vars
Next == Reply1 \/ Second \/ Consider \/ PrintIt \/ Parse \/ Rest
Spec == Init /\ [][Next]_vars

\* (no deadlock: there is a reply to everything, and a text for every value)
C15 == ph = "two" => /\ OrderOk(a, ra[1], ra[2], b, rb[1], rb[2])
                     /\ (SignedCmp(a, b) = 0 /\ IsNegative(a) = IsNegative(b)) => ra = rb
C02 == ph = "back" => /\ Extent(b) = Len(tx)
                      /\ rb = <<v, sSuccess>>
C03 == ph = "print" => CanonicalAt(T, v, tx)
C06 == ph = "print" => NegationOk(v, tx, IF v.neg THEN Tail(tx) ELSE <<cMinus>> \o tx) /\ Identifies([v EXCEPT !.neg = ~@], IF v.neg THEN Tail(tx) ELSE <<cMinus>> \o tx)
\* the arithmetic of IsShortest against enumeration
Size(x) == Len(SigDigits(Scan(x)))
C05 == ph = "print" => IsShortest(v, tx) = (\A y \in ra : Size(y) >= Size(tx))
=============================================================================
