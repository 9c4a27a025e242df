--------------------------------- MODULE Doe ---------------------------------
(* Sample plans.  A plan is a sequence of runs, a run a sequence of values, one per design-variable entry, in fixed
   point; lo and hi are the bounds of the entries (same fixed point). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
\* the k-th (0-based) of n evenly spaced levels, times (n-1)
Level(lo, hi, n, k) == lo * (n - 1) + k * (hi - lo)
\* index of the level a value stands on, -1 if none
LevelOf(v, lo, hi, n, tol) ==
  IF n = 1 THEN IF Abs(v - lo) <= tol \/ Abs(v - hi) <= tol THEN 0 ELSE -1
  ELSE LET ks == {k \in 0..(n - 1) : Abs(v * (n - 1) - Level(lo, hi, n, k)) <= tol * (n - 1)}
       IN IF ks = {} THEN -1 ELSE CHOOSE k \in ks : TRUE
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* every combination of levels exactly once, in any order
FullFactorial(plan, lo, hi, n, tol) ==
  LET m == Len(lo)
      idx == [r \in 1..Len(plan) |-> [j \in 1..m |-> LevelOf(plan[r][j], lo[j], hi[j], n, tol)]]
  IN /\ Len(plan) = Pow(n, m)
     /\ \A r \in 1..Len(plan) : \A j \in 1..m : idx[r][j] # -1
     /\ Cardinality({idx[r] : r \in 1..Len(plan)}) = Len(plan)
\* exactly one value in each of the n equal strata: the k-th smallest lies in the k-th stratum
Stratified(vals, lo, hi, tol) ==
  LET n == Len(vals) a == Min2(lo, hi) b == Max2(lo, hi)
      s == SortSeq(vals, LAMBDA x, y : x < y)
  IN \A k \in 1..n : s[k] * n >= a * n + (k - 1) * (b - a) - tol * n /\ s[k] * n <= a * n + k * (b - a) + tol * n
LatinHypercube(plan, lo, hi, n, tol) ==
  /\ Len(plan) = n
  /\ \A j \in 1..Len(lo) : Stratified([r \in 1..n |-> plan[r][j]], lo[j], hi[j], tol)
Within(plan, lo, hi, n, tol) ==
  /\ Len(plan) = n
  /\ \A r \in 1..n : \A j \in 1..Len(lo) : plan[r][j] >= Min2(lo[j], hi[j]) - tol /\ plan[r][j] <= Max2(lo[j], hi[j]) + tol
=============================================================================
