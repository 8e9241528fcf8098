----------------------------- MODULE TraceProg ------------------------------
(* Programs which were built, and the replies their units got, as steps of Program. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS File, Armed, Shards

Trace == ndJsonDeserialize(File)
N == Len(SelectSeq(Trace, LAMBDA r : r.op = "fresh"))
Answer == TLCEval([a \in 1..N |-> Trace[a].r])

VARIABLES l, inc, linked, phase
P == INSTANCE Program WITH Units <- 1..2, Headers <- {}, MaxHeaders <- 4, answer <- Answer

Rec == Trace[l]

ASSUME \A i \in 1..3 : TLCSet(i, 0)
Count(r) == TLCSet(r, TLCGet(r) + 1)

\* every unit asks for all it can, in each of the three phases
PerKind == [ftoa |-> 8, atof |-> 9, diy_fp |-> 3, print |-> 3]
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN PerKind[k] + Total(S \ {k})
Expected == 3 * (Total(P!Offers(1)) + Total(P!Offers(2)))

Init == l = 1 /\ inc = [u \in 1..2 |-> <<>>] /\ linked = FALSE /\ phase = "built"

\* all the includes and the link
Build == /\ Rec.op = "build"
         /\ Rec.ok
         /\ inc' = [u \in 1..2 |-> Rec.inc[u]]
         /\ linked' = TRUE
         /\ phase' = "starting"

Step == \/ Rec.op = "fresh" /\ UNCHANGED <<inc, linked, phase>>
        \/ Build
        \/ Rec.op = "example" /\ Rec.ok /\ Rec.rc = 0 /\ UNCHANGED <<inc, linked, phase>>
        \/ Rec.op = "phase" /\ P!Advance(Rec.ph)
        \/ Rec.op = "end" /\ phase = "exiting" /\ Rec.asked = Expected /\ UNCHANGED <<inc, linked, phase>>
        \/ Rec.op = "reply" /\ P!Ask(Rec.u, Rec.kind, Rec.a, Rec.r)

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Count(1)
        /\ IF Rec.op = "build" THEN Count(3) ELSE TRUE
        /\ IF ENABLED Step THEN Step ELSE /\ Count(2) /\ PrintT("REJECT " \o ToString(l)) /\ UNCHANGED <<inc, linked, phase>>

Spec == Init /\ [][Next]_<<l, inc, linked, phase>>

AllConsumed == /\ PrintT("TOTAL " \o ToString([consumed |-> TLCGet(1), rejected |-> TLCGet(2), fresh |-> N, programs |-> TLCGet(3)]))
               /\ TLCGet(1) = Len(Trace)
=============================================================================
