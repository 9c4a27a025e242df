------------------------------- MODULE Order --------------------------------
(* Execution order of the subsystems of a group.  A model is a tree of subsystems (functions Parent and Kind over paths)
   and a set of dependencies between components; a group sees the dependencies collapsed to its direct children. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Ran(s) == {s[i] : i \in 1..Len(s)}
IsPerm(s, S) == Len(s) = Cardinality(S) /\ Ran(s) = S
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* digraphs as sets of pairs over the nodes N
RECURSIVE Grow(_, _)
Grow(F, E) == LET G == F \cup {e[2] : e \in {d \in E : d[1] \in F}} IN IF G = F THEN F ELSE Grow(G, E)
Succ(n, E) == Grow({e[2] : e \in {d \in E : d[1] = n}}, E)         \* reachable by at least one edge
ReachOf(N, E) == [n \in N |-> Succ(n, E)]
Sccs(N, E) == LET R == ReachOf(N, E)
              IN {S \in {{m \in N : m = n \/ (m \in R[n] /\ n \in R[m])} : n \in N} : Cardinality(S) > 1}
InSame(C, a, b) == \E S \in C : a \in S /\ b \in S
Acyclic(N, E) == \A n \in N : n \notin Succ(n, E)
Respects(o, E) == \A e \in E : At(o, e[1]) < At(o, e[2])

\* an acceptable automatic order, whatever edges were given up: a permutation, and every dependency that is not part of a
\* cycle is satisfied
AutoOK(o, N, E) == IsPerm(o, N) /\ LET C == Sccs(N, E) IN Respects(o, {e \in E : ~InSame(C, e[1], e[2])})
\* what may be reported as given up for it
BrokenOK(b, o, N, E) == LET C == Sccs(N, E)
                        IN /\ b \subseteq {e \in E : InSame(C, e[1], e[2])}
                           /\ Acyclic(N, E \ b) /\ (IsPerm(o, N) => Respects(o, E \ b))
\* child v is out of order with respect to s: v runs first although it depends on s, with b given up
OutOfOrder(o, E, b) == {<<v, s>> \in Ran(o) \X Ran(o) : At(o, v) < At(o, s) /\ v \in Succ(s, E \ b)}

\* ---- a user's order ----
Accepts(o, N) == IsPerm(o, N)
=============================================================================
