------------------------------ MODULE Floaxie -------------------------------
(***************************************************************************)
(* The library at work.  Threads call it; a parse reads its string one     *)
(* character at a time, then either settles the value on its own or        *)
(* consults the fallback (errno put aside meanwhile), which may call the   *)
(* library again; a print finds digits and lays them out.  All the state   *)
(* of a call is in its frame; what threads share is nothing at all.        *)
(*                                                                         *)
(* Checked: what is delivered satisfies the contract (Contract.tla), every *)
(* call returns, and the whole refines Api - i.e. nothing but the request  *)
(* decides the reply.  Values are those of a toy format, so that TLC can   *)
(* go through all interleavings.                                           *)
(***************************************************************************)
EXTENDS Contract, FiniteSets, TLC

CONSTANTS
  Threads,
  Errnos,
  Used,            \* requests made (indices of Reqs)
  MaxDepth,        \* nesting of calls in a thread
  PutsErrnoAside,  \* TRUE; FALSE: errno of earlier calls is left for the fallback
  GivesErrnoBack,  \* TRUE; FALSE: errno stays cleared, if the fallback reports nothing
  GivesBackOnThrow, \* TRUE; FALSE: errno stays cleared, if the fallback throws
  SharedScratch,   \* FALSE; TRUE: the scanner of all the threads is one (static) object
  Locales,         \* "C", "comma"
  FollowsLocale,   \* FALSE; TRUE: the default fallback is shown the string as it is, though it expects the point of the locale
  SwapsLocale      \* FALSE; TRUE: the process is put into the "C" locale while a fallback is consulted, and then back

NoError == 0  ERANGE == 34  EINVAL == 22

Fmt == [P |-> 4, EMIN |-> -6, EMAX |-> 3, maxd |-> 3]
T == 2   \* notation threshold

HB == 2 ^ (Fmt.P - 1)
Fin(neg, m, e) == [cls |-> "fin", neg |-> neg, m |-> FromInt(m), e |-> e, tp |-> m = HB /\ e > Fmt.EMIN]
Special(cls, neg) == [cls |-> cls, neg |-> neg, m |-> <<>>, e |-> 0, tp |-> FALSE]
Magnitudes == {Fin(FALSE, m, Fmt.EMIN) : m \in 1..(HB - 1)} \cup {Fin(FALSE, m, e) : m \in HB..(2 * HB - 1), e \in Fmt.EMIN..Fmt.EMAX}
              \cup {Special("zero", FALSE), Special("inf", FALSE)}

Reqs == <<
  [op |-> "parse", tx |-> <<53, 120>>],                 \* 5x      settled
  [op |-> "parse", tx |-> <<45, 50, 101, 57>>],         \* -2e9    out of range by far
  [op |-> "parse", tx |-> <<49, 50, 52>>],              \* 124     the least that overflows
  [op |-> "parse", tx |-> <<46, 48, 50, 101>>],         \* .02e    subnormal, incomplete exponent
  [op |-> "parse", tx |-> <<49, 55>>],                  \* 17      halfway
  [op |-> "parse", tx |-> <<55, 101, 45, 51>>],         \* 7e-3    underflows, but is close to the limit
  [op |-> "parse", tx |-> <<45, 105, 110, 102>>],       \* -inf
  [op |-> "parse", tx |-> <<45, 101, 53>>],             \* -e5     no number
  [op |-> "parse", tx |-> <<45, 48>>],                  \* -0
  [op |-> "print", v |-> Fin(TRUE, 13, -6)],
  [op |-> "print", v |-> Fin(FALSE, 15, 3)],
  [op |-> "print", v |-> Special("nan", TRUE)],
  [op |-> "parse", tx |-> <<49, 46, 55, 101, 49>>],     \* 1.7e1   halfway
  [op |-> "parse", tx |-> <<49, 55, 44, 53>>]           \* 17,5    halfway, not the whole of it
>>
R(a) == Reqs[a]
IsParse(a) == R(a).op = "parse"
Scanned == TLCEval([a \in Used |-> IF IsParse(a) THEN Scan(R(a).tx) ELSE ScanInit])

Signed(v, neg) == [v EXCEPT !.neg = neg]
\* the correctly rounded value of a number
Nearest(st) == IF IsZero(st) THEN Special("zero", IsNegative(st))
               ELSE Signed(CHOOSE v \in Magnitudes : RoundsTo(Fmt, Literal(st), v), IsNegative(st))
CR == TLCEval([a \in Used |-> IF Scanned[a].kind = "num" THEN Nearest(Scanned[a]) ELSE Special("zero", FALSE)])

\* is the library unsure about the value?  A matter of design: whenever it
\* may be (C11), except for values below the subnormals by far
Unsure == TLCEval([a \in Used |-> /\ IsParse(a)
                                  /\ IsNonZero(Scanned[a])
                                  /\ NearBoundary(Fmt, Literal(Scanned[a]), CR[a])
                                  /\ CmpX(Literal(Scanned[a]), Binary(<<1>>, Fmt.EMIN - 3)) > 0])

\* digits of a value: the shortest ones, of these the nearest (any would do)
DigitsIn(v) == {d \in (1..99) \X (-4..1) : d[1] % 10 # 0 /\ RoundsToFin([n |-> FromInt(d[1]), x |-> d[2]], v)}
DigitsFor(v) == LET c == DigitsIn(v)
                    s == IF \E d \in c : d[1] < 10 THEN {d \in c : d[1] < 10} ELSE c
                    d == CHOOSE d \in s : TRUE
                IN  [ds |-> IF d[1] < 10 THEN <<d[1]>> ELSE <<d[1] \div 10, d[1] % 10>>, k |-> d[2]]
Found == TLCEval([a \in {b \in Used : R(b).op = "print" /\ R(b).v.cls = "fin"} |-> DigitsFor(R(a).v)])

\* the same as read where the decimal point is a comma
Comma == 44
Swapped(tx) == [i \in 1..Len(tx) |-> IF tx[i] = Comma THEN cDot ELSE IF tx[i] = cDot THEN Comma ELSE tx[i]]
LocalScan == TLCEval([a \in {b \in Used : Unsure[b]} |-> Scan(Swapped(R(a).tx))])
LocalCR == TLCEval([a \in {b \in Used : Unsure[b]} |-> Nearest(LocalScan[a])])

-----------------------------------------------------------------------------
(* What the fallback may answer, and report in errno.  1: as strtod() does; others are arbitrary *)
Answers == 1..6
Honest(v, st) == [v |-> v, end |-> Extent(st), e |-> IF v.cls # "fin" \/ IsSubnormal(Fmt, v) THEN ERANGE ELSE NoError]
FallbackDoes(a, x) ==
  CASE x = 1 -> Honest(CR[a], Scanned[a])
    [] x = 2 -> [v |-> Fin(TRUE, 9, 0), end |-> 0, e |-> NoError]
    [] x = 3 -> [v |-> Special("inf", TRUE), end |-> 1, e |-> ERANGE]
    [] x = 4 -> [v |-> Special("zero", TRUE), end |-> 1, e |-> EINVAL]
    [] x = 5 -> [v |-> Special("inf", FALSE), end |-> 2, e |-> NoError]
    [] x = 6 -> [v |-> Special("thrown", FALSE), end |-> 0, e |-> NoError]   \* an exception, which is delivered in place of a value

StatusOf(v, e) == IF e # ERANGE THEN sSuccess
                  ELSE IF v.cls = "inf" THEN sOverflow
                  ELSE IF v.cls = "zero" THEN sUnderflow ELSE sSuccess

-----------------------------------------------------------------------------
VARIABLES frames,   \* of each thread: calls in progress, innermost last
          errno,    \* of each thread
          scratch,  \* see SharedScratch
          locale,   \* of each thread
          last      \* of each thread: the last delivery (only to state properties)

vars == <<frames, errno, scratch, locale, last>>

None == [a |-> 0]

New(a) == [a |-> a, pc |-> IF IsParse(a) THEN "scan" ELSE "digits", st |-> ScanInit, i |-> 0,
           found |-> 0, saved |-> 0, loc |-> "", x |-> 0, v |-> Special("zero", FALSE), s |-> sSuccess, end |-> 0, tx |-> <<>>]

Init == /\ frames = [t \in Threads |-> <<>>]
        /\ errno \in [Threads -> Errnos]
        /\ scratch = ScanInit
        /\ locale \in {[t \in Threads |-> c] : c \in Locales}
        /\ last = [t \in Threads |-> None]

Top(t) == frames[t][Len(frames[t])]
At(t, pc) == frames[t] # <<>> /\ Top(t).pc = pc
Set(t, fr) == frames' = [frames EXCEPT ![t][Len(frames[t])] = fr]
User(t) == IF frames[t] = <<>> THEN TRUE ELSE Top(t).pc = "out"

Env(t, e) == /\ frames[t] = <<>>
             /\ errno' = [errno EXCEPT ![t] = e]
             /\ last' = [last EXCEPT ![t] = None]
             /\ UNCHANGED <<frames, scratch, locale>>

\* of the process or of one thread, while no call is in progress there
SetLocale == /\ \E S \in {Threads} \cup {{t} : t \in Threads}, c \in Locales :
                  /\ \A t \in S : frames[t] = <<>>
                  /\ locale' = [t \in Threads |-> IF t \in S THEN c ELSE locale[t]]
                  /\ locale' # locale
                  /\ last' = [t \in Threads |-> IF t \in S THEN None ELSE last[t]]
             /\ UNCHANGED <<frames, errno, scratch>>

Begin(t, a) == /\ User(t)
               /\ Len(frames[t]) < MaxDepth
               /\ frames' = [frames EXCEPT ![t] = Append(@, [New(a) EXCEPT !.found = errno[t]])]
               /\ last' = [last EXCEPT ![t] = None]
               /\ scratch' = IF SharedScratch /\ IsParse(a) THEN ScanInit ELSE scratch
               /\ UNCHANGED <<errno, locale>>

\* scanning -------------------------------------------------------------------
State(t) == IF SharedScratch THEN scratch ELSE Top(t).st

NextChar(t) == LET i == Top(t).i IN IF i < Len(R(Top(t).a).tx) THEN R(Top(t).a).tx[i + 1] ELSE 0

Scanning(t) ==
  /\ At(t, "scan")
  /\ LET st == ScanStep(State(t), NextChar(t))
     IN  /\ Set(t, [Top(t) EXCEPT !.i = @ + 1, !.st = IF SharedScratch THEN @ ELSE st, !.pc = IF Running(st) THEN "scan" ELSE "settle"])
         /\ scratch' = IF SharedScratch THEN st ELSE scratch
  /\ UNCHANGED <<errno, locale, last>>

\* settling -------------------------------------------------------------------
Deliverable(fr, v, s, end) == [fr EXCEPT !.v = v, !.s = s, !.end = end, !.pc = "deliver"]

Settle(t) ==
  /\ At(t, "settle")
  /\ LET fr == Top(t)
         st == State(t)
     IN  Set(t, CASE st.kind = "none" -> Deliverable(fr, Special("zero", FALSE), sSuccess, 0)
                  [] st.kind = "inf" -> Deliverable(fr, Special("inf", IsNegative(st)), sSuccess, Extent(st))
                  [] st.kind = "nan" -> Deliverable(fr, Special("nan", FALSE), sSuccess, Extent(st))
                  [] Unsure[fr.a] -> [fr EXCEPT !.pc = "ask"]
                  [] OTHER -> LET v == Nearest(st)
                              IN  Deliverable(fr, v, IF IsZero(st) \/ v.cls = "fin" THEN sSuccess ELSE StatusOf(v, ERANGE), Extent(st)))
  /\ UNCHANGED <<errno, scratch, locale, last>>

\* falling back ---------------------------------------------------------------
Ask(t) ==
  /\ At(t, "ask")
  /\ Set(t, [Top(t) EXCEPT !.pc = "out", !.saved = errno[t], !.loc = IF SwapsLocale THEN locale[t] ELSE @])
  /\ errno' = [errno EXCEPT ![t] = IF PutsErrnoAside THEN NoError ELSE @]
  /\ locale' = IF SwapsLocale THEN [u \in Threads |-> "C"] ELSE locale
  /\ UNCHANGED <<scratch, last>>

Fallback(t, x) ==
  /\ At(t, "out")
  /\ LET a == Top(t).a
         d == IF x = 1 /\ FollowsLocale /\ locale[t] = "comma" THEN Honest(LocalCR[a], LocalScan[a]) ELSE FallbackDoes(a, x)
     IN  /\ Set(t, [Top(t) EXCEPT !.pc = "check", !.x = x, !.v = d.v, !.end = d.end])
         /\ errno' = [errno EXCEPT ![t] = IF d.e # NoError THEN d.e ELSE IF PutsErrnoAside THEN NoError ELSE Top(t).saved]
  /\ last' = [last EXCEPT ![t] = None]
  /\ UNCHANGED <<scratch, locale>>

CheckErrno(t) ==
  /\ At(t, "check")
  /\ Set(t, [Top(t) EXCEPT !.pc = "deliver", !.s = StatusOf(Top(t).v, errno[t])])
  /\ errno' = [errno EXCEPT ![t] = IF @ = NoError /\ GivesErrnoBack /\ (GivesBackOnThrow \/ Top(t).v.cls # "thrown") THEN Top(t).saved ELSE @]
  /\ locale' = IF SwapsLocale THEN [u \in Threads |-> Top(t).loc] ELSE locale
  /\ UNCHANGED <<scratch, last>>

\* printing -------------------------------------------------------------------
Digits(t) ==
  /\ At(t, "digits")
  /\ LET fr == Top(t)  v == R(fr.a).v
     IN  Set(t, IF v.cls # "fin" THEN [fr EXCEPT !.tx = SpecialText(v), !.pc = "deliver"]
                ELSE [fr EXCEPT !.st = Found[fr.a], !.pc = "layout"])
  /\ UNCHANGED <<errno, scratch, locale, last>>

LayOut(t) ==
  /\ At(t, "layout")
  /\ Set(t, [Top(t) EXCEPT !.tx = NumText(T, R(Top(t).a).v.neg, Top(t).st.ds, Top(t).st.k), !.pc = "deliver"])
  /\ UNCHANGED <<errno, scratch, locale, last>>

Deliver(t) ==
  /\ At(t, "deliver")
  /\ last' = [last EXCEPT ![t] = [Top(t) EXCEPT !.st = 0, !.i = 0, !.saved = 0, !.loc = ""]]
  /\ frames' = [frames EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<errno, scratch, locale>>

Work(t) == \/ Scanning(t) \/ Settle(t) \/ Ask(t) \/ CheckErrno(t)
           \/ \E x \in Answers : Fallback(t, x)
           \/ Digits(t) \/ LayOut(t) \/ Deliver(t)

Next == \/ \E t \in Threads : \/ Work(t)
                              \/ \E e \in Errnos : Env(t, e)
                              \/ \E a \in Used : Begin(t, a)
        \/ SetLocale

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Work(t))

-----------------------------------------------------------------------------
(* The contract, on what is delivered.  Values of the fallback are its own  *)
(* (C11); the honest one (x = 1) is held to the contract too.               *)
Delivered(P(_)) == \A t \in Threads : last[t].a # 0 => P(last[t])
DeliveredParse(P(_, _)) == Delivered(LAMBDA r : IsParse(r.a) /\ r.x \in {0, 1} => P(r, Scanned[r.a]))
DeliveredPrint(P(_, _)) == Delivered(LAMBDA r : ~IsParse(r.a) => P(r, R(r.a).v))

C01 == DeliveredPrint(LAMBDA r, v : Identifies(v, r.tx))
C03 == DeliveredPrint(LAMBDA r, v : CanonicalAt(T, v, r.tx))
C05 == DeliveredPrint(LAMBDA r, v : DigitBound(Fmt, v, r.tx))
C06 == DeliveredPrint(LAMBDA r, v : SpecialOk(v, r.tx))
C07 == DeliveredParse(LAMBDA r, st : ValueOk(Fmt, st, r.v))
C08 == DeliveredParse(LAMBDA r, st : RangeOk(Fmt, st, r.v, r.s))
C09 == DeliveredParse(LAMBDA r, st : ExtentOk(st, r.v, r.s, r.end))
C10 == DeliveredParse(LAMBDA r, st : SpecialsOk(st, r.v, r.s, r.end))
C11 == Delivered(LAMBDA r : IF r.x = 0 THEN TRUE
                            ELSE /\ FallbackAllowed(Fmt, Scanned[r.a], CR[r.a])
                                 /\ r.v = FallbackDoes(r.a, r.x).v /\ r.end = FallbackDoes(r.a, r.x).end)
\* only the user's code changes the locale, and only where no call is in progress
C20 == [][\A t \in Threads : locale'[t] # locale[t] => frames[t] = <<>> /\ frames' = frames]_vars
C18 == \A t \in Threads : last[t].a # 0 =>
         LET r == last[t]
             e == IF r.x = 0 THEN NoError ELSE FallbackDoes(r.a, r.x).e
         IN  /\ errno[t] \in {r.found} \cup ({e} \ {NoError})
             /\ r.x # 0 => r.s = StatusOf(r.v, e)

\* all of it together: nothing but requests and answers of the fallback decides the replies
OwnReply(a) ==
  LET st == Scanned[a] IN
  IF ~IsParse(a) THEN (IF R(a).v.cls # "fin" THEN SpecialText(R(a).v) ELSE NumText(T, R(a).v.neg, Found[a].ds, Found[a].k))
  ELSE IF st.kind = "num" THEN <<CR[a], IF IsZero(st) \/ CR[a].cls = "fin" THEN sSuccess ELSE StatusOf(CR[a], ERANGE), Extent(st)>>
  ELSE IF st.kind = "none" THEN <<Special("zero", FALSE), sSuccess, 0>>
  ELSE <<IF st.kind = "inf" THEN Special("inf", IsNegative(st)) ELSE Special("nan", FALSE), sSuccess, Extent(st)>>
TheAnswer == [a \in Used |->
  [consults |-> Unsure[a], own |-> OwnReply(a), may |-> {}, asks |-> FALSE,
   given |-> [x \in Answers |-> LET d == FallbackDoes(a, x) IN [r |-> <<d.v, StatusOf(d.v, d.e), d.end>>, e |-> d.e]]]]

ApiFrame(fr) == [a |-> fr.a, found |-> fr.found, x |-> fr.x,
                 ph |-> IF fr.pc = "out" THEN "out" ELSE IF fr.x # 0 THEN "back" ELSE "run"]
Abs == [t \in Threads |-> [i \in 1..Len(frames[t]) |-> ApiFrame(frames[t][i])]]

A == INSTANCE Api WITH Requests <- Used, answer <- TheAnswer, stack <- Abs, err <- errno, Errnos <- Errnos \cup {NoError, ERANGE, EINVAL},
                   Worlds <- Locales, Askew <- {}, world <- locale

\* the reply is not part of the state of Api: the step which pops a frame has to be a proper Return of what is delivered
Delivery(fr) == IF IsParse(fr.a) THEN <<fr.v, fr.s, fr.end>> ELSE fr.tx
Returns == [][\A t \in Threads : Len(frames'[t]) < Len(frames[t]) => A!Return(t, Delivery(Top(t)), errno'[t])]_vars
Refines == A!ApiSpec

\* every call returns (unless the fallback itself calls for ever)
CallsReturn == \A t \in Threads : (frames[t] # <<>>) ~> (User(t))
=============================================================================
