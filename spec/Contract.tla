------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a reply of the library has to satisfy, clause by clause.  The      *)
(* clauses carry the identifiers of properties.jsonl.  They are used three *)
(* times: as invariants of the model of the system (Floaxie), as theorems  *)
(* about the models of the algorithms (GrisuAlg, KroshAlg), and as the     *)
(* guards of the transitions which recorded executions of the real code    *)
(* have to be explained by (Trace, TraceHist).                             *)
(***************************************************************************)
EXTENDS Scanner, Layout, FloatFormat

Threshold == 16

-----------------------------------------------------------------------------
(* Printing.  f: format, v: value, tx: text *)

SpecialText(v) == CASE v.cls = "nan" -> wNan
                    [] v.cls = "inf" -> Sign(v.neg) \o wInf
                    [] v.cls = "zero" -> <<c0>>

SpecialOk(v, tx) == v.cls # "fin" => tx = SpecialText(v)

\* the whole text is one non-zero number
WholeNumber(tx) == LET st == Scan(tx) IN IsNonZero(st) /\ Extent(st) = Len(tx)

\* C01
Identifies(v, tx) ==
  v.cls = "fin" => LET st == Scan(tx)
                   IN  /\ IsNonZero(st) /\ Extent(st) = Len(tx)
                       /\ IsNegative(st) = v.neg
                       /\ RoundsToFin(Literal(st), v)

\* significant digits and decimal exponent of a text
SigDigits(st) == SubSeq(st.ds, 1, Len(st.ds) - TrailingZeros(st.ds))
SigExp(st) == Literal(st).x + TrailingZeros(st.ds)

\* C03
CanonicalAt(T, v, tx) ==
  v.cls = "fin" => LET st == Scan(tx)
                   IN  /\ IsNonZero(st) /\ Extent(st) = Len(tx)
                       /\ tx = NumText(T, IsNegative(st), SigDigits(st), SigExp(st))
Canonical(v, tx) == CanonicalAt(Threshold, v, tx)

\* C05, the bound
DigitBound(f, v, tx) == v.cls = "fin" => LET st == Scan(tx) IN IsNonZero(st) => Len(SigDigits(st)) <= f.maxd

\* C05, the quality; decided on the number of digits of the text
IsShortest(v, tx) == ~ShorterExists(v, Len(SigDigits(Scan(tx))))

\* C06: v and -v
NegationOk(v, tx, ntx) ==
  v.cls = "fin" => IF v.neg THEN tx = <<cMinus>> \o ntx ELSE ntx = <<cMinus>> \o tx

-----------------------------------------------------------------------------
(* Parsing.  tx: string (without terminator), st: its scan, v: value,      *)
(* s: status, end: consumed characters                                     *)

sSuccess == 0  sUnderflow == 1  sOverflow == 2

NothingRead(v, s, end) == v.cls = "zero" /\ ~v.neg /\ s = sSuccess /\ end = 0

\* C09
ExtentOk(st, v, s, end) ==
  /\ end = Extent(st)
  /\ st.kind = "none" => NothingRead(v, s, end)

\* C10
SpecialsOk(st, v, s, end) ==
  /\ st.kind = "inf" => v.cls = "inf" /\ v.neg = IsNegative(st) /\ s = sSuccess /\ end = Extent(st)
  /\ st.kind = "nan" => v.cls = "nan" /\ s = sSuccess /\ end = Extent(st)
  /\ v.cls = "nan" => st.kind = "nan"
  /\ v.cls = "inf" => st.kind = "inf" \/ s = sOverflow

\* C07
ValueOk(f, st, v) ==
  st.kind = "num" =>
    IF IsZero(st) THEN v.cls = "zero" /\ v.neg = IsNegative(st)
    ELSE LET X == Literal(st)
         IN  IF v.cls = "fin" THEN v.neg = IsNegative(st) /\ RoundsToFin(X, v)
             ELSE Overflows(f, X) \/ (RoundsTo(f, X, v) /\ v.neg = IsNegative(st))

\* C08
RangeOk(f, st, v, s) ==
  st.kind = "num" =>
    IF IsZero(st) THEN s = sSuccess
    ELSE LET X == Literal(st)
         IN  IF Overflows(f, X) THEN v.cls = "inf" /\ v.neg = IsNegative(st) /\ s = sOverflow
             ELSE IF Underflows(f, X) THEN v.cls = "zero" /\ v.neg = IsNegative(st) /\ s = sUnderflow
             ELSE s = sSuccess

\* C11.  cv: correctly rounded value (a witness, verified here), calls: number
\* of fallback calls, same: called with the caller's string and end pointer,
\* fv, fend: its answer
FallbackAllowed(f, st, cv) ==
  /\ IsNonZero(st)
  /\ RoundsTo(f, Literal(st), cv)
  /\ NearBoundary(f, Literal(st), cv)

\* C15
SignedCmp(a, b) ==
  LET za == IsZero(a)  zb == IsZero(b)
      na == IsNegative(a)  nb == IsNegative(b)
  IN  IF za /\ zb THEN 0
      ELSE IF za THEN (IF nb THEN 1 ELSE -1)
      ELSE IF zb THEN (IF na THEN -1 ELSE 1)
      ELSE IF na # nb THEN (IF na THEN -1 ELSE 1)
      ELSE LET c == CmpX(Literal(a), Literal(b)) IN IF na THEN -c ELSE c

OrderOk(sa, va, sta, sb, vb, stb) ==
  sa.kind = "num" /\ sb.kind = "num" =>
    LET c == SignedCmp(sa, sb)
    IN  IF c = 0 THEN /\ CmpVal(va, vb) = 0 /\ sta = stb
                      /\ (IsNegative(sa) = IsNegative(sb)) => va.neg = vb.neg
        ELSE IF c < 0 THEN CmpVal(va, vb) <= 0 ELSE CmpVal(va, vb) >= 0
=============================================================================
