------------------------------- MODULE NLSolve -------------------------------
(* Stopping of an iterative nonlinear solve, and the steps of a damped Newton solve within bounds.
   What is known of an iterate is a record of comparisons of its residual norm with the absolute tolerance (n), of its
   ratio to the first norm with the relative one (q) and of its change with the step tolerance (s), each "le", "gt" or
   "near" when it is too close to call, and whether its norm is not a number (nan) or not finite (inf). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Le(v) == v = "le"
LeMay(v) == v \in {"le", "near"}
Conv(f) == ~f.nan /\ (Le(f.n) \/ Le(f.q) \/ Le(f.s))
MayConv(f) == ~f.nan /\ (LeMay(f.n) \/ LeMay(f.q) \/ LeMay(f.s))
\* the iterates fs (numbered from 0 or 1) may end where they do: no earlier one had to be the last, the last one may be
StopsRight(fs, first, max) ==
  LET K == Len(fs) + first - 1 IN
  /\ Len(fs) >= 1
  /\ K <= max \/ Len(fs) = 1
  /\ \A i \in 1..Len(fs) - 1 : ~Conv(fs[i]) /\ ~fs[i].nan
  /\ K >= max \/ MayConv(fs[Len(fs)]) \/ fs[Len(fs)].nan
\* whether the solve counts as failed: it used up its limit or no tolerance is met; "any" when it is too close to call
Verdict(fs, first, max) == LET f == fs[Len(fs)] IN
  IF Len(fs) + first - 1 >= max THEN "fail" ELSE IF Conv(f) THEN "ok" ELSE IF MayConv(f) THEN "any" ELSE "fail"
ReportsRight(fs, first, max, err, raised, said) == LET v == Verdict(fs, first, max) IN
  /\ raised => err
  /\ v = "ok" => ~raised /\ ~said
  /\ v = "fail" => (IF err THEN raised ELSE ~raised /\ said)
\* ---- Newton steps; numbers in units of 1/10000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Inside(x, lo, up) == (lo.h => lo.b <= x) /\ (up.h => x <= up.b)
Clip(x, lo, up) == LET a == IF lo.h THEN Max2(x, lo.b) ELSE x IN IF up.h THEN Min2(a, up.b) ELSE a
\* an entry on a bound that a step leads away from
OnBound(x0, d, lo, up) == (lo.h /\ x0 = lo.b /\ d > 0) \/ (up.h /\ x0 = up.b /\ d < 0)
\* one entry after a step: an/ad is the damping
StepRight(x0, d, an, ad, lo, up, x1) ==
  Inside(x0, lo, up) => LET w == Clip(x0 + (d * an) \div ad, lo, up)
                            tol == 3 + (IF w < 0 THEN -w ELSE w) \div 100000
                        IN x1 - w <= tol /\ w - x1 <= tol
\* a backtracking search over tries whose decrease is enough ("ge"), not enough ("lt") or too close to call
SearchRight(ts, max) ==
  LET T == Len(ts) - 1 IN
  /\ T <= max
  /\ \A i \in 1..T : ts[i] # "ge"
  /\ T = max \/ ts[T + 1] # "lt"
=============================================================================
