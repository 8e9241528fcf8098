---------------------------- MODULE CoverDigits -----------------------------
(***************************************************************************)
(* Skeletons of decimals to be parsed by the real code, from KroshScan at  *)
(* its real size: one into each state of the collector (how many digits    *)
(* are collected, how many zeros held back, which side of the point, how   *)
(* much of the tail), there every transition, then an ending.  1 stands    *)
(* for any digit but 0; the replay chooses.                                *)
(***************************************************************************)
EXTENDS KroshScan, FiniteSets

CONSTANTS MostZeros

Cap(x, m) == IF x > m THEN m ELSE x

\* room for zeros to hide in: as many as there is room for, one more, one less
ZeroClass == LET room == IF behind THEN FD - tdc ELSE Kappa - Len(digits)
             IN  IF zeros <= 2 THEN zeros
                 ELSE IF zeros < room - 1 THEN 3
                 ELSE IF zeros <= room + 1 THEN 10 + (zeros - room)
                 ELSE IF zeros < room + FD THEN 20 + (zeros - room) ELSE 4

\* zeros before the point among them?
Abstract == <<Len(digits), ZeroClass, dot, behind, tdc, Cap(gain, zeros + 1), Cap(fdc, 2), st.fd > 0>>

VARIABLE str
InitC == Init /\ str = <<>>
NextC == \E c \in {48, 49, 46} : Feed(c) /\ str' = Append(str, c)
SpecC == InitC /\ [][NextC]_<<vars, str>>

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o " " \o Text(Tail(s))
Out(s) == PrintT("GEN " \o Text(s))

Endings == {<<>>, <<49>>, <<48, 49>>, <<48, 48, 48, 49, 49>>, <<49, 49, 49, 49, 49>>, <<46, 48, 49>>, <<48, 46, 49>>}
OneDot(s) == Cardinality({i \in 1..Len(s) : s[i] = cDot}) <= 1

Cut == zeros <= MostZeros
Emit == \A e \in Endings : OneDot(str \o e) => Out(str \o e)
=============================================================================
