----------------------------- MODULE TraceHist ------------------------------
(***************************************************************************)
(* Validation of a recorded history of calls of several threads against    *)
(* Api.  The trace starts with records "fresh": the answers of processes   *)
(* which did nothing before.  They fix the constant answer.  Events of the *)
(* threads (in the order of a global clock read before a call and after    *)
(* its return, or in the order of a schedule) have to be steps of Api:     *)
(* env, world, look, call, consult, answer, ret.  Events without an action (crash,      *)
(* hang, race reports) are rejected, and so are returns which are no       *)
(* Return; validation proceeds as if a right one had come.                 *)
(*                                                                         *)
(* Armed: "C12" and "C20" judge replies, "C18" errno and the status after  *)
(* the fallback.                                                           *)
(***************************************************************************)
EXTENDS Contract, Json, TLC

CONSTANTS File, Armed, Shards

Trace == ndJsonDeserialize(File)

N == Len(SelectSeq(Trace, LAMBDA r : r.op = "fresh"))
ASSUME \A i \in 1..N : Trace[i].op = "fresh" /\ Trace[i].a = i

ERANGE == 34

\* a fresh record: r reply, e error left in errno; if it consults a fallback
\* of ours: given, a sequence of [w value answered, e error reported, r reply, after errno after the call]
Answer == TLCEval([a \in 1..N |-> [consults |-> Trace[a].consults, own |-> Trace[a].r, given |-> Trace[a].given,
                           may |-> {Trace[a].e} \ {0}, asks |-> Trace[a].asks]])

NThreads == 16
Requests == 1..N

\* locale and rounding mode, 0: the ones of a fresh process
Worlds == (0..15) \X (0..3)
Default == <<0, 0>>

VARIABLES l, stack, err, world

A == INSTANCE Api WITH Threads <- 1..NThreads, Errnos <- 0..200, Answers <- 1..16, answer <- Answer,
                   Askew <- (0..15) \X (1..3)

Rec == Trace[l]

rConsumed == 1  rRejected == 2  rNested == 3  rConsult == 4  rWorlds == 5
ASSUME \A i \in 1..5 : TLCSet(i, 0)
Count(r) == TLCSet(r, TLCGet(r) + 1)

Init == /\ l = 1
        /\ stack = [t \in 1..NThreads |-> <<>>]
        /\ err = [t \in 1..NThreads |-> 0]
        /\ world = [t \in 1..NThreads |-> Default]

-----------------------------------------------------------------------------
\* what an error reported by the fallback means
StatusOf(v, e) == IF e # ERANGE THEN sSuccess
                  ELSE IF v.cls = "inf" THEN sOverflow
                  ELSE IF v.cls = "zero" THEN sUnderflow ELSE sSuccess

StatusIn(r) == r[Len(r) - 1]

\* an exception of the fallback in place of a reply
IsThrown(r) == r = <<-1, -1, -1>>

FreshOk(r) ==
  Armed = "C18" => /\ r.kind = "print" => r.e = 0
                   /\ r.kind = "parse" => r.e \in {0, ERANGE}
                   /\ (r.kind = "own" /\ ~r.consults) => r.e = 0
                   /\ r.consults => \A i \in 1..Len(r.given) :
                        LET g == r.given[i] IN /\ IsThrown(g.r) \/ StatusIn(g.r) = StatusOf(Decode(r.ty, g.w), g.e)
                                               /\ g.after \in {0, g.e}

Learn == /\ Rec.op = "fresh"
         /\ FreshOk(Rec)
         /\ UNCHANGED <<stack, err, world>>

\* errno left is one the fallback may have reported
RetStep ==
  /\ Rec.op = "ret"
  /\ stack[Rec.t] # <<>>
  /\ A!Library(Rec.t)
  /\ LET fr == A!Top(Rec.t) IN
     /\ fr.a = Rec.a
     /\ A!Complete(fr)
     /\ Armed \in {"C12", "C20"} => A!ReplyOk(Rec.t, fr, Rec.r)
     /\ Armed = "C18" => /\ Rec.err \in A!ErrnosAfter(fr)
                         /\ fr.ph = "back" => StatusIn(Rec.r) = StatusIn(A!Reply(fr))
  /\ A!Pop(Rec.t)
  /\ err' = [err EXCEPT ![Rec.t] = Rec.err]
  /\ UNCHANGED world

Step == \/ Learn
        \/ Rec.op = "world" /\ A!SetWorld(IF Rec.t = 0 THEN 1..NThreads ELSE {Rec.t}, <<Rec.loc, Rec.mode>>)
        \/ Rec.op = "look" /\ A!Look(Rec.t, <<Rec.loc, Rec.mode>>)
        \/ Rec.op = "env" /\ A!Env(Rec.t, Rec.err)
        \/ Rec.op = "call" /\ err[Rec.t] = Rec.err /\ A!Call(Rec.t, Rec.a)
        \/ Rec.op = "consult" /\ A!Consult(Rec.t, Rec.err)
        \/ Rec.op = "answer" /\ A!Answer(Rec.t, Rec.x, Rec.err)
        \/ RetStep

\* proceed as if nothing had happened
Forced == /\ stack' = CASE Rec.op = "ret" /\ stack[Rec.t] # <<>> -> [stack EXCEPT ![Rec.t] = SubSeq(@, 1, Len(@) - 1)]
                        [] Rec.op = "consult" /\ stack[Rec.t] # <<>> -> [stack EXCEPT ![Rec.t][Len(stack[Rec.t])].ph = "out"]
                        [] OTHER -> stack
          /\ err' = IF Rec.op \in {"ret", "consult", "answer", "env"} THEN [err EXCEPT ![Rec.t] = Rec.err] ELSE err
          /\ UNCHANGED world

Reject == /\ Count(rRejected)
          /\ PrintT("REJECT " \o ToString(l))
          /\ Forced

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Count(rConsumed)
        /\ IF Rec.op = "call" /\ stack[Rec.t] # <<>> THEN Count(rNested) ELSE TRUE
        /\ IF Rec.op \in {"world", "look"} THEN Count(rWorlds) ELSE TRUE
        /\ IF Rec.op = "consult" THEN Count(rConsult) ELSE TRUE
        /\ IF ENABLED Step THEN Step ELSE Reject

Spec == Init /\ [][Next]_<<l, stack, err, world>>

AllConsumed == /\ PrintT("TOTAL " \o ToString([consumed |-> TLCGet(rConsumed), rejected |-> TLCGet(rRejected), fresh |-> N,
                                               nested |-> TLCGet(rNested), consults |-> TLCGet(rConsult), worlds |-> TLCGet(rWorlds)]))
               /\ TLCGet(rConsumed) = Len(Trace)
=============================================================================
