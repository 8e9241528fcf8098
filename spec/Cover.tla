------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* Strings to be parsed by the real code, from the automaton of Scanner: a *)
(* shortest prefix into each of its states (up to the digits read), there  *)
(* every transition, then continuations which tell the states apart.       *)
(*                                                                         *)
(* Family  "num": states of decimals, "word": those of infinity and nan    *)
(* Odd     character codes which resemble ASCII ones and are not: as wide  *)
(*         characters, and cut to a byte                                   *)
(***************************************************************************)
EXTENDS Scanner, TLC

CONSTANTS Family, Twice, Odd

\* what the automaton tells apart, in both cases
Interesting == {43, 45, 46, 48, 49, 57, 69, 73, 78, 70, 84, 89, 65, 101, 105, 110, 102, 116, 121, 97, 40, 41, 95, 122, 32, 44}
\* to get around in it
Walk == {43, 45, 46, 48, 49, 101, 105, 110, 102, 116, 121, 97, 40, 41}

NumPhases == {"start", "sign", "int", "dot", "frac", "e", "esign", "edig"}
Mine(ph) == (ph \in NumPhases) = (Family = "num")

\* continuations
Ends == {<<>>, <<49>>, <<46, 49>>, <<101, 49>>, <<49, 101, 49>>, <<45, 49>>,
         <<105, 110, 102>>, <<110, 102>>, <<102>>, <<105, 110, 105, 116, 121>>, <<110, 105, 116, 121>>, <<105, 116, 121>>, <<116, 121>>, <<121>>,
         <<110, 97, 110>>, <<97, 110>>, <<40, 41>>, <<97, 41>>, <<41>>}
\* the ones which lead on where the next character, whatever it is, is taken for the expected one
Follow(ph) == CASE ph \in {"start", "sign"} -> {<<49>>, <<110, 102>>, <<97, 110>>}
              [] ph \in {"int", "frac"} -> {<<49>>}
              [] ph \in {"dot", "e", "esign", "edig"} -> {<<49>>}
              [] ph = "i" -> {<<102>>} [] ph = "inf" -> {<<110, 105, 116, 121>>} [] ph = "infi" -> {<<105, 116, 121>>}
              [] ph = "infin" -> {<<116, 121>>} [] ph = "infini" -> {<<121>>} [] ph = "n" -> {<<110>>}
              [] ph = "nan" -> {<<41>>} [] ph = "nanpar" -> {<<41>>}
              [] OTHER -> {}

VARIABLES str, st
vars == <<str, st>>

Init == str = <<>> /\ st = ScanInit
Next == /\ Running(st)
        /\ \E c \in Walk : str' = Append(str, c) /\ st' = ScanStep(st, c)
Spec == Init /\ [][Next]_vars

\* a string for each of these is kept
Abstract == <<st.ph, st.kind, st.neg, st.ds # <<>>, st.eneg, st.ev > 0, st.fd > 0>>

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o " " \o Text(Tail(s))
Out(s) == PrintT("GEN " \o Text(s))

Emit == (Running(st) /\ Mine(st.ph)) =>
          /\ \A c \in Interesting, e \in Ends : Out(str \o <<c>> \o e)
          /\ Twice => \A c, d \in Interesting, e \in Ends : Out(str \o <<c, d>> \o e)
          /\ (~st.neg /\ ~st.eneg) => \A c \in (1..255) \cup Odd : Out(Append(str, c)) /\ \A e \in Follow(st.ph) : Out(str \o <<c>> \o e)
=============================================================================
