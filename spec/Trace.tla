------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of executions recorded from the real code: single calls and  *)
(* groups of calls whose replies depend on their arguments only.  (Calls   *)
(* with history - C12 - are validated by TraceHist.)                       *)
(*                                                                         *)
(* A trace is a sequence of records, one per call (or group), written when *)
(* the call returned.  A record is consumed by the action of its kind,     *)
(* which is enabled only if the reply satisfies the contract of the armed  *)
(* property.  Where no action is enabled the record is rejected: this also *)
(* holds for crash, hang, throw, overrun and sanitizer events, which the   *)
(* model does not know.  Rejections are printed and counted; validation    *)
(* proceeds with the next record.  Records are independent, so that they   *)
(* are consumed by Shards cursors in parallel.                             *)
(***************************************************************************)
EXTENDS Contract, DiyContract, Json, TLC

CONSTANTS File,     \* ndjson file
          Armed,    \* property identifier
          Shards

Trace == ndJsonDeserialize(File)

VARIABLES l   \* position of a cursor

Rec == Trace[l]
Fm == Format(Rec.ty)
Val(w) == Decode(Rec.ty, w)

\* TLC registers, summed up over the workers in the end
rConsumed == 1  rRejected == 2  rShortest == 3  rMeasured == 4
rClass == 10    \* and following: coverage
NClasses == 24
Count(r) == TLCSet(r, TLCGet(r) + 1)
ASSUME \A r \in 1..(rClass + NClasses) : TLCSet(r, 0)

Is(op) == Rec.op = op

-----------------------------------------------------------------------------
(* One action for each kind of event *)

PrintCall == /\ Is("print")
         /\ LET v == Val(Rec.w) IN
            CASE Armed = "C01" -> Identifies(v, Rec.tx)
              [] Armed = "C03" -> Canonical(v, Rec.tx)
              [] Armed = "C04" -> /\ Rec.ret = Len(Rec.tx)
                                  /\ Rec.nul = Len(Rec.tx)
                                  /\ Rec.lo >= 0
                                  /\ Rec.hi < Rec.cap
              [] Armed = "C05" -> DigitBound(Fm, v, Rec.tx)
              [] Armed = "C06" -> SpecialOk(v, Rec.tx)
              [] OTHER -> TRUE

\* as Print, with a uniformly chosen normal value: the quality is measured
Measure == /\ Is("measure")
           /\ LET v == Val(Rec.w) IN
              /\ Armed = "C05" => DigitBound(Fm, v, Rec.tx)
              /\ Armed = "C05" => /\ v.cls = "fin"
                                  /\ Count(rMeasured + (IF Rec.ty = "f" THEN 2 ELSE 0))
                                  /\ IF IsShortest(v, Rec.tx)
                                     THEN Count(rShortest + (IF Rec.ty = "f" THEN 2 ELSE 0)) ELSE TRUE

\* v and -v printed
PrintPair == /\ Is("pair")
             /\ Armed = "C06" => /\ NegationOk(Val(Rec.w), Rec.tx, Rec.ntx)
                                 /\ SpecialOk(Val(Rec.w), Rec.tx)

\* printed, and the text parsed by the library
RoundTrip == /\ Is("rt")
             /\ Armed = "C02" => LET v == Val(Rec.w)  u == Val(Rec.pw) IN
                                 /\ Rec.end = Len(Rec.tx) /\ Rec.st = sSuccess
                                 /\ u.cls = v.cls
                                 /\ IF v.cls = "zero" THEN TRUE ELSE Rec.pw = Rec.w

ParseCall == /\ Is("parse")
         /\ LET st == Scan(Rec.tx)  v == Val(Rec.w) IN
            CASE Armed = "C07" -> ValueOk(Fm, st, v)
              [] Armed = "C08" -> RangeOk(Fm, st, v, Rec.st)
              [] Armed = "C09" -> ExtentOk(st, v, Rec.st, Rec.end)
              [] Armed = "C10" -> SpecialsOk(st, v, Rec.st, Rec.end)
              [] Armed = "C14" -> Rec.end >= 0 /\ Rec.end <= Len(Rec.tx)
              [] OTHER -> TRUE

\* a string of thousands to millions of characters: a head, one character n times, maybe a parenthesis.
\* end is -1 if outside; intact: the string was left alone.  A phase of the automaton which a
\* character leads back to is not left by more of them.
Repeated(st, c, n) ==
  LET one == ScanStep(st, c)  two == ScanStep(one, c) IN
  IF Running(one) /\ two.ph = one.ph THEN [two EXCEPT !.pos = st.pos + n, !.acc = IF two.acc = two.pos THEN st.pos + n ELSE @]
  ELSE ScanFrom(st, [i \in 1..12 |-> c])
HugeString == /\ Is("huge")
              /\ CASE Armed = "C14" -> Rec.end >= 0 /\ Rec.end <= Rec.len /\ Rec.intact
                   [] Armed = "C10" -> LET st == Repeated(Scan(Rec.tx), Rec.tail, Rec.n)
                                       IN  SpecialsOk(IF Rec.closed THEN ScanStep(st, cClose) ELSE st, Val(Rec.w), Rec.st, Rec.end)
                   [] OTHER -> TRUE

\* a number alone and followed by something else
ParseSuffixed == /\ Is("suffix")
                 /\ Armed = "C09" =>
                      LET st == Scan(Rec.tx)  full == Scan(Rec.tx \o Rec.more) IN
                      /\ Rec.end = Extent(st) /\ Rec.mend = Extent(full)
                      /\ Extent(full) = Extent(st) => Rec.mw = Rec.w /\ Rec.mst = Rec.st

\* any NaN is as good as another
SameWords(a, b) == a = b \/ (Val(a).cls = "nan" /\ Val(b).cls = "nan")

\* a parse with a fallback of our own: n calls, args (same string and end
\* pointer), its answer fw, fend; cw witness of the correctly rounded
\* value; ns, ws: calls and values for every way to hand the fallback over (end pointer, none,
\* from_string; function, object, lambda, std::function, one which throws)
ParseWithFallback ==
  /\ Is("fallback")
  /\ Armed = "C11" =>
       /\ LET st == Scan(Rec.tx)
          IN  \/ /\ Rec.n = 0
                 /\ ValueOk(Fm, st, Val(Rec.w))
              \/ /\ Rec.n = 1 /\ Rec.args
                 /\ FallbackAllowed(Fm, st, Val(Rec.cw))
                 /\ Rec.w = Rec.fw
                 /\ Rec.end = Rec.fend
       /\ \A i \in 1..Len(Rec.ns) : Rec.ns[i] = Rec.n
       /\ \A i \in 1..Len(Rec.ws) : SameWords(Rec.ws[i], Rec.w)

\* the same value printed, or the same string parsed, through every overload
PrintGroup == /\ Is("pgroup")
              /\ Armed = "C13" => \A i, j \in 1..Len(Rec.txs) : Rec.txs[i] = Rec.txs[j]
\* value words and status; any NaN is as good as another
SameReply(a, b) == \/ a = b
                   \/ LET n == Len(a) - 1 IN
                      /\ Len(b) = n + 1 /\ a[n + 1] = b[n + 1]
                      /\ Val(SubSeq(a, 1, n)).cls = "nan" /\ Val(SubSeq(b, 1, n)).cls = "nan"
ParseGroup == /\ Is("qgroup")
              /\ Armed = "C13" => /\ \A i \in 1..Len(Rec.rs) : SameReply(Rec.rs[1], Rec.rs[i])
                                  /\ \A i, j \in 1..Len(Rec.ends) : Rec.ends[i] = Rec.ends[j]

\* two literals
Compare == /\ Is("cmp")
           /\ Armed = "C15" =>
                LET sa == Scan(Rec.tx)  sb == Scan(Rec.txb)
                    c == SignedCmp(sa, sb) IN
                /\ sa.kind = "num" /\ sb.kind = "num"
                /\ OrderOk(sa, Val(Rec.w), Rec.st, sb, Val(Rec.wb), Rec.stb)
                /\ (c = 0 /\ IsNegative(sa) = IsNegative(sb)) => Rec.w = Rec.wb

\* the default fallback, called directly
DefaultFallback ==
  /\ Is("dfb")
  /\ Armed = "C18" => LET st == Scan(Rec.tx)  v == Val(Rec.w) IN
                      /\ Rec.end = Extent(st)
                      /\ st.kind = "num" => ValueOk(Fm, st, v)
                      /\ st.kind # "num" => SpecialsOk(st, v, sSuccess, Rec.end)

\* extended precision numbers
Diy == \/ /\ Is("diyconv") /\ (Armed = "C16" => DiyConvOk(Fm, Val(Rec.w), Rec))
       \/ /\ Is("diydown") /\ (Armed = "C16" => DiyDownOk(Fm, Val(Rec.w), Rec))
       \/ /\ Is("diymul") /\ (Armed = "C16" => DiyMulOk(Rec))
       \/ /\ Is("diybound") /\ (Armed = "C16" => DiyBoundOk(Fm, Val(Rec.w), Rec))
       \/ /\ Is("diysub") /\ (Armed = "C16" => DiySubOk(Rec))
       \/ /\ Is("diystep") /\ (Armed = "C16" => DiyStepOk(Rec))
       \/ /\ Is("power") /\ (Armed = "C16" => PowerOk(Rec))
       \/ /\ Is("round") /\ (Armed = "C16" => RoundOk(Rec))

\* binary renderings
Binaries == \/ /\ Is("bindouble") /\ (Armed = "C17" => Rec.tx = DoubleBits(Rec.w))
            \/ /\ Is("binint") /\ (Armed = "C17" => Rec.tx = IntBits(Rec.w, Rec.bits))
            \/ /\ Is("stream") /\ (Armed = "C17" => Rec.tx = StreamText(Rec.f, Rec.e))

Explained == \/ PrintCall \/ Measure \/ PrintPair \/ RoundTrip
             \/ ParseCall \/ HugeString \/ ParseSuffixed \/ ParseWithFallback
             \/ PrintGroup \/ ParseGroup \/ Compare
             \/ DefaultFallback
             \/ Diy \/ Binaries

-----------------------------------------------------------------------------
(* Coverage: how many records are of which class *)
PrintClass(v, tx) == CASE v.cls = "nan" -> 0 [] v.cls = "inf" -> 1 [] v.cls = "zero" -> 2
                       [] IsSubnormal(Fm, v) -> 3
                       [] \E i \in 1..Len(tx) : tx[i] = cle -> IF v.tp THEN 4 ELSE 5
                       [] \E i \in 1..Len(tx) : tx[i] = cDot -> IF tx[1] = c0 \/ (Len(tx) > 1 /\ tx[2] = c0 /\ v.neg) THEN 6 ELSE 7
                       [] OTHER -> 8
ParseClass(st) == CASE st.kind = "none" -> 10 [] st.kind = "inf" -> 11 [] st.kind = "nan" -> 12
                    [] IsZero(st) -> 13
                    [] OTHER -> LET X == Literal(st) IN
                                IF Lead(X) > 310 THEN 14
                                ELSE IF Lead(X) < -323 THEN 15
                                ELSE IF Len(st.ds) > 19 THEN 16
                                ELSE IF st.ev # 0 THEN 17
                                ELSE IF st.fd # 0 THEN 18 ELSE 19
Classify == CASE Rec.op \in {"print", "measure", "pair", "rt"} -> Count(rClass + PrintClass(Val(Rec.w), Rec.tx))
              [] Rec.op \in {"parse", "suffix", "fallback", "qgroup", "cmp", "dfb"} -> Count(rClass + ParseClass(Scan(Rec.tx)))
              [] OTHER -> TRUE

-----------------------------------------------------------------------------
Init == l \in 1..Shards

Consume == /\ l <= Len(Trace)
           /\ l' = l + Shards
           /\ Count(rConsumed)
           /\ Classify
           /\ IF Explained THEN TRUE
              ELSE Count(rRejected) /\ PrintT("REJECT " \o ToString(l))

Spec == Init /\ [][Consume]_l

Sum(r) == FoldLeft(LAMBDA a, b : a + b, 0, TLCGet("all")[r])

\* at least 99% of the measured outputs are shortest, for each type
Compact == \A i \in {0, 2} : Sum(rMeasured + i) > 0 => 100 * Sum(rShortest + i) >= 99 * Sum(rMeasured + i)

Report == PrintT("TOTAL " \o ToString([consumed |-> Sum(rConsumed), rejected |-> Sum(rRejected),
                   measured |-> <<Sum(rMeasured), Sum(rMeasured + 2)>>,
                   shortest |-> <<Sum(rShortest), Sum(rShortest + 2)>>,
                   classes |-> [i \in 1..NClasses |-> Sum(rClass + i - 1)], compact |-> Compact]))

AllConsumed == Report /\ Sum(rConsumed) = Len(Trace)
=============================================================================
