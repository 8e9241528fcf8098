-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The library as its users see it: threads issue requests and receive     *)
(* replies.  A parse may consult the fallback conversion given by the      *)
(* user; that is user's code again, which may issue requests itself.       *)
(*                                                                         *)
(* answer maps requests to records                                         *)
(*   consults  does it consult the fallback?                               *)
(*   own       the reply, if it doesn't                                    *)
(*   given     for each answer of the fallback: the reply r, if it does,   *)
(*             and the error e which it reports in errno (0: none)         *)
(*   may       errors which may be left in errno otherwise                 *)
(*   asks      may the value be that of the default fallback?              *)
(* It is a constant: a reply depends on the request (and the answer of the *)
(* fallback) only - not on the requests before it, nor on those in         *)
(* progress in other threads or around it in the same thread, nor on errno *)
(* (C12), nor on the world, i.e. the locale and the rounding mode (C20) -  *)
(* except that a default fallback (asks) rounds as it is told to.  errno   *)
(* is left as it was found, or contains the error which the fallback       *)
(* reported (C18).                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Threads, Requests, Errnos,
          Answers,    \* what the fallback may do
          Worlds,
          Askew,      \* worlds in which the default fallback doesn't round to nearest
          answer

VARIABLES stack,  \* of each thread: the calls in progress, the innermost one last
          err,    \* errno of each thread
          world   \* of each thread: its locale and rounding mode

apivars == <<stack, err, world>>

NoErr == 0

\* a call: request, errno found, phase (run, out: the fallback runs, back), the fallback's answer
Frame(a, e) == [a |-> a, found |-> e, ph |-> "run", x |-> 0]
Top(t) == stack[t][Len(stack[t])]
SetTop(t, fr) == stack' = [stack EXCEPT ![t][Len(stack[t])] = fr]

\* the user's code of the thread runs
User(t) == IF stack[t] = <<>> THEN TRUE ELSE Top(t).ph = "out"
Library(t) == ~User(t)

ApiInit == /\ stack = [t \in Threads |-> <<>>]
           /\ err \in [Threads -> Errnos]
           /\ world \in {[t \in Threads |-> w] : w \in Worlds}

\* the user changes the world of some threads, which are at rest meanwhile; no call does
SetWorld(S, w) == /\ \A t \in S : stack[t] = <<>>
                  /\ world' = [t \in Threads |-> IF t \in S THEN w ELSE world[t]]
                  /\ UNCHANGED <<stack, err>>

\* the world as a thread sees it, in the middle of other threads' calls, too
Look(t, w) == w = world[t] /\ UNCHANGED apivars

\* something else the thread does sets errno
Env(t, e) == /\ User(t)
             /\ err' = [err EXCEPT ![t] = e]
             /\ UNCHANGED <<stack, world>>

Call(t, a) == /\ User(t)
              /\ stack' = [stack EXCEPT ![t] = Append(@, Frame(a, err[t]))]
              /\ UNCHANGED <<err, world>>

\* the fallback is consulted, once at most; errno is the library's business
Consult(t, e) == /\ Library(t)
                 /\ Top(t).ph = "run"
                 /\ answer[Top(t).a].consults
                 /\ SetTop(t, [Top(t) EXCEPT !.ph = "out"])
                 /\ err' = [err EXCEPT ![t] = e]
                 /\ UNCHANGED world

\* the fallback gives the answer x; it reports an error, or leaves errno as it was given to it
Answer(t, x, e) == /\ stack[t] # <<>>
                   /\ Top(t).ph = "out"
                   /\ SetTop(t, [Top(t) EXCEPT !.ph = "back", !.x = x])
                   /\ err' = [err EXCEPT ![t] = e]
                   /\ UNCHANGED world

Reply(fr) == IF fr.ph = "back" THEN answer[fr.a].given[fr.x].r ELSE answer[fr.a].own
ReplyOk(t, fr, r) == r = Reply(fr) \/ (world[t] \in Askew /\ answer[fr.a].asks)
Complete(fr) == fr.ph = "back" \/ (fr.ph = "run" /\ ~answer[fr.a].consults)

\* what errno may be after a call
ErrnosAfter(fr) == {fr.found} \cup ((IF fr.ph = "back" THEN {answer[fr.a].given[fr.x].e} ELSE answer[fr.a].may) \ {NoErr})

Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

Return(t, r, e) == /\ Library(t)
                   /\ Complete(Top(t))
                   /\ ReplyOk(t, Top(t), r)
                   /\ e \in ErrnosAfter(Top(t))
                   /\ err' = [err EXCEPT ![t] = e]
                   /\ Pop(t)
                   /\ UNCHANGED world

\* errno may be touched during a call
Within(t) == /\ Library(t)
             /\ \E e \in Errnos : err' = [err EXCEPT ![t] = e]
             /\ UNCHANGED <<stack, world>>

Step(t) == \/ \E e \in Errnos : Env(t, e) \/ Consult(t, e)
           \/ \E a \in Requests : Call(t, a)
           \/ \E x \in Answers, e \in Errnos : Answer(t, x, e)
           \/ /\ Library(t)
              /\ \E e \in Errnos : Return(t, Reply(Top(t)), e)
           \/ Within(t)

ApiNext == (\E S \in SUBSET Threads, w \in Worlds : SetWorld(S, w)) \/ (\E t \in Threads : Step(t))

ApiSpec == ApiInit /\ [][ApiNext]_apivars
=============================================================================
