----------------------------- MODULE MC_Scanner -----------------------------
(* All strings over an alphabet up to a length: automaton = grammar.        *)
EXTENDS Grammar, Scanner, TLC

CONSTANTS Alphabet, MaxLen

VARIABLES str, st
vars == <<str, st>>

Init == str = <<>> /\ st = ScanInit
Feed(c) == /\ Len(str) < MaxLen
           /\ Running(st)     \* a stopped automaton stays stopped; see Settled
           /\ str' = Append(str, c)
           /\ st' = ScanStep(st, c)
Next == \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars

Typed == st.ph \in Phases /\ st.acc <= st.pos /\ st.pos <= Len(str)
ExtentAgrees == Extent(st) = LongestPrefix(str)
KindAgrees == st.kind = Kind(SubSeq(str, 1, st.acc))
SignAgrees == st.acc > 0 => IsNegative(st) = Negative(SubSeq(str, 1, st.acc))
ValueAgrees == st.kind = "num" =>
                 LET p == SubSeq(str, 1, st.acc)
                     d == Denotes(p)
                 IN  /\ IsZero(st) = (d.n = <<>>)
                     /\ ~IsZero(st) => CmpX(Literal(st), d) = 0

\* once stopped, no continuation makes a longer numeral
Settled == st.ph = "stop" => \A c \in Alphabet : LongestPrefix(Append(str, c)) = st.acc

\* the accepted prefix only ever grows
Grows == [][st'.acc >= st.acc]_vars
=============================================================================
