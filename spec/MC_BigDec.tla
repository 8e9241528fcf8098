----------------------------- MODULE MC_BigDec ------------------------------
(* Arithmetic of BigDec against TLC's integers, and algebraic laws beyond.  *)
EXTENDS BigDec, TLC
CONSTANT Vals
VARIABLES a, b
Init == a \in Vals /\ b = 0
Next == b = 0 /\ b' \in Vals \ {0} /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
A == FromInt(a) 
B == FromInt(b)
Small == a < 30000 /\ b < 30000
SumOk == Add(A, B) = FromInt(a + b)
ProdOk == Small => Mul(A, B) = FromInt(a * b)
DiffOk == a >= b => Sub(A, B) = FromInt(a - b)
CmpOk == Cmp(A, B) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
Big(v) == Add(Mul(Pow5(300), FromInt(v)), Pow2(700))
Laws == /\ Mul(Big(a), Big(b)) = Mul(Big(b), Big(a))
        /\ Sub(Add(Big(a), Big(b)), Big(b)) = Big(a)
        /\ Mul(Big(a), Add(Big(b), A)) = Add(Mul(Big(a), Big(b)), Mul(Big(a), A))
DivOk == b > 0 /\ b < 100000 => LET q == DivSmall(Big(a), b) IN
             /\ Cmp(MulSmall(q, b), Big(a)) <= 0
             /\ Cmp(Add(MulSmall(q, b), B), Big(a)) > 0
Digits == a > 0 => [i \in 1..NDig(A) |-> DigitFromTop(A, NDig(A), i)] =
            [i \in 1..NDig(A) |-> (a \div (10 ^ (NDig(A) - i))) % 10]
CmpXOk == a > 0 /\ b > 0 => CmpX([n |-> A, x |-> 3], [n |-> MulSmall(B, 1000), x |-> 0]) = Cmp(A, B)
PowOk == \A k \in {0, 1, 17, 500, 1160} : Pow5(k)[1] % 2 = 1 /\ Mul(Pow5(k), Pow2(k)) = Shift10(<<1>>, k)
=============================================================================
