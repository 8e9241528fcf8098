------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Schedules to be replayed into the real code: what the user's code of    *)
(* each thread does next, the steps of Api in which the user's code acts.  *)
(* A step "C" issues a request of a class with errno set before (it runs   *)
(* until it returns or consults the fallback), a step "A" lets the         *)
(* fallback which the thread is in answer.  The steps of the library in    *)
(* between follow by themselves.  Which requests really consult is up to   *)
(* the code; a step which turns out impossible is skipped when replayed.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Threads, Errnos, Answers, MaxDepth, Length

Classes == {"unsure", "settled", "printed"}

VARIABLES stack,  \* of each thread: numbers of fallbacks it is in
          h       \* the schedule

Init == stack = [t \in Threads |-> 0] /\ h = <<>>

Issue(t, c, e) == /\ stack[t] < MaxDepth
                  /\ stack' = IF c = "unsure" THEN [stack EXCEPT ![t] = @ + 1] ELSE stack
                  /\ h' = Append(h, <<"C", t, c, e>>)

Give(t, x) == /\ stack[t] > 0
              /\ stack' = [stack EXCEPT ![t] = @ - 1]
              /\ h' = Append(h, <<"A", t, x>>)

\* threads are alike: a new one comes in order
Fair(t) == \A u \in Threads : u < t => \E i \in 1..Len(h) : h[i][2] = u

Next == /\ Len(h) < Length
        /\ \E t \in Threads : /\ Fair(t)
                              /\ \/ \E c \in Classes, e \in Errnos : Issue(t, c, e)
                                 \/ \E x \in Answers : Give(t, x)
Spec == Init /\ [][Next]_<<stack, h>>

\* replay what consults at all
Worth == \E i \in 1..Len(h) : h[i][1] = "C" /\ h[i][3] = "unsure"

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN ""
           ELSE (IF s[1][1] = "C" THEN "C " \o ToString(s[1][2]) \o " " \o s[1][3] \o " " \o ToString(s[1][4])
                 ELSE "A " \o ToString(s[1][2]) \o " " \o ToString(s[1][3])) \o "; " \o Text(Tail(s))

Emit == Len(h) = Length /\ Worth => PrintT("GEN " \o Text(h))
=============================================================================
