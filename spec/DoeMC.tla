-------------------------------- MODULE DoeMC --------------------------------
(* The generators of the plans: an odometer over levels, and a Latin hypercube whose columns are improved by exchanging
   entries (several exchanges at a time, each on the result of the last).  Exhaustive for small sizes. *)
EXTENDS Doe
CONSTANTS N, M
VARIABLES odo, done, plan, cols
vars == <<odo, done, plan, cols>>
Perms == {f \in [1..N -> 0..(N - 1)] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Init == odo = [j \in 1..M |-> 0] /\ done = FALSE /\ plan = <<>> /\ cols \in [1..M -> Perms]
Lo == [j \in 1..M |-> 100 * j]
Hi == [j \in 1..M |-> 100 * j + 60 * (N - 1) * (IF j = 2 THEN -1 ELSE 1)]
Val(j, k) == (Level(Lo[j], Hi[j], N, k)) \div (N - 1)
RECURSIVE Inc(_, _)
Inc(o, j) == IF j = 0 THEN o ELSE IF o[j] + 1 < N THEN [o EXCEPT ![j] = @ + 1] ELSE Inc([o EXCEPT ![j] = 0], j - 1)
Run == /\ ~done /\ plan' = Append(plan, [j \in 1..M |-> Val(j, odo[j])])
       /\ odo' = Inc(odo, M) /\ done' = (\A j \in 1..M : odo[j] = N - 1) /\ UNCHANGED cols
Swap == /\ plan = <<>> /\ \E j \in 1..M, a, b \in 1..N : a # b /\ cols' = [cols EXCEPT ![j][a] = cols[j][b], ![j][b] = cols[j][a]]
        /\ UNCHANGED <<odo, done, plan>>
Spec == Init /\ [][Run \/ Swap]_vars
FactorialOK == done => FullFactorial(plan, Lo, Hi, N, 0)
LatinOK == LatinHypercube([r \in 1..N |-> [j \in 1..M |-> 10 * cols[j][r] + 5]], [j \in 1..M |-> 0], [j \in 1..M |-> 10 * N], N, 0)
=============================================================================
