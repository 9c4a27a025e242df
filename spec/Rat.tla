-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on pairs <<n, d>> with d > 0, plus the sentinel NaR = <<0, 0>> which stands
   for "not a (small) rational": it is produced by the harness for NaN, infinities and values that are not
   exactly representable, absorbs every operation, and is equal to nothing (not even itself). *)
EXTENDS Integers, Sequences

NaR == <<0, 0>>
IsNaR(a) == a[2] = 0
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) == IF d = 0 THEN NaR ELSE IF n = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
                   IN <<s * (n \div g), s * (d \div g)>>

R(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>

RAdd(a, b) == IF IsNaR(a) \/ IsNaR(b) THEN NaR
              ELSE IF a[2] = b[2] THEN (IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Norm(a[1] + b[1], a[2]))
              ELSE LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF IsNaR(a) \/ IsNaR(b) THEN NaR
              ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
              ELSE LET g1 == Gcd(Abs(a[1]), b[2]) g2 == Gcd(Abs(b[1]), a[2])
                       h1 == IF g1 = 0 THEN 1 ELSE g1  h2 == IF g2 = 0 THEN 1 ELSE g2
                   IN Norm((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RInv(a) == IF IsNaR(a) \/ a[1] = 0 THEN NaR ELSE Norm(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RAbs(a) == <<Abs(a[1]), a[2]>>

\* total comparisons; NaR compares false
REq(a, b) == a[2] # 0 /\ b[2] # 0 /\ a = b
RLe(a, b) == a[2] # 0 /\ b[2] # 0 /\ LET c == RSub(a, b) IN c[1] <= 0
RLt(a, b) == a[2] # 0 /\ b[2] # 0 /\ LET c == RSub(a, b) IN c[1] < 0
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b

\* |a - b| <= t, t a rational tolerance (t[1] = 0: exact equality)
RClose(a, b, t) == IF t[1] = 0 THEN REq(a, b)
                   ELSE a[2] # 0 /\ b[2] # 0 /\ LET c == RSub(a, b) IN RLe(RAbs(c), t)

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSum(Tail(s)))

SeqClose(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RClose(s[i], t[i], tol)
SeqREq(s, t) == SeqClose(s, t, RZero)
=============================================================================
