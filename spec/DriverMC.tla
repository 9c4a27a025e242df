------------------------------- MODULE DriverMC -------------------------------
(* An optimizer that evaluates the problem at arbitrary points and stops at any of them, over every small declaration of
   a design variable of two entries (one or both declared, in either order) and a constrained response. *)
EXTENDS Driver
VARIABLES dv, con, u, pc, best, x0
vars == <<dv, con, u, pc, best, x0>>
Scs == {R(-2), R(1), <<1, 2>>}
Bs == {[h |-> FALSE, b |-> RZero], [h |-> TRUE, b |-> R(-1)], [h |-> TRUE, b |-> R(1)]}
No == [h |-> FALSE, b |-> RZero]
DvDecls == {[v |-> 1, idx |-> ix, add |-> [i \in 1..Len(ix) |-> a], sc |-> [i \in 1..Len(ix) |-> IF i = 1 THEN s ELSE R(1)],
             lo |-> [i \in 1..Len(ix) |-> lo], up |-> [i \in 1..Len(ix) |-> up], eq |-> [i \in 1..Len(ix) |-> No]] :
            ix \in {<<2>>, <<2, 1>>}, a \in {R(0), R(1)}, s \in Scs, lo \in Bs, up \in Bs}
ConDecls == {[v |-> 1, idx |-> <<1>>, add |-> <<R(1)>>, sc |-> <<s>>, lo |-> <<lo>>, up |-> <<up>>, eq |-> <<No>>] : s \in Scs, lo \in Bs, up \in Bs}
\* x1 * x2 - x1
RespDef == << << << [c |-> R(1), v |-> <<<<1, 1>>, <<1, 2>>>>], [c |-> R(-1), v |-> <<<<1, 1>>>>] >> >> >>
Rr == RespDef[1]
Pts == {R(-1), R(0), R(2)}
Init == /\ dv \in DvDecls /\ con \in ConDecls /\ pc = "ask" /\ best = <<>>
        /\ u = <<<<R(1), R(2)>>>> /\ x0 = X(u, <<dv>>)
Ask == /\ pc = "ask" /\ \E p \in [1..Len(dv.idx) -> Pts] : /\ u' = PutX(u, <<dv>>, p)
                                                           /\ best' \in {best, p} \ {<<>>}
       /\ UNCHANGED <<dv, con, pc, x0>>
Stop == pc = "ask" /\ best # <<>> /\ pc' = "done" /\ u' = PutX(u, <<dv>>, best) /\ UNCHANGED <<dv, con, best, x0>>
Spec == Init /\ [][Ask \/ Stop]_vars
LeftAtBest == pc = "done" => X(u, <<dv>>) = best
Untouched == \A k \in 1..2 : (\A i \in 1..Len(dv.idx) : dv.idx[i] # k) => u[1][k] = (<<R(1), R(2)>>)[k]
BoundsAgree == \A i \in 1..Len(dv.idx) : Within(u[1], dv, i) <=> DrvWithin(u[1], dv, i)
\* the optimizer calls a point feasible exactly when the model value of the response is within the declared bounds
Feasible == LET ss == Sides(u, <<Rr>>, <<dv>>, <<con>>)
            IN (\A k \in 1..Len(ss) : RLe(RZero, ss[k].f)) <=> Within(Resp(u, Rr), con, 1)
=============================================================================
