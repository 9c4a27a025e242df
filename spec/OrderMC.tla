------------------------------ MODULE OrderMC --------------------------------
(* Every digraph over K children: cut strongly connected sets open one node at a time, in any way, then emit any child
   all of whose remaining sources were emitted. *)
EXTENDS Order
CONSTANTS K, MaxE
N == 1..K
VARIABLES g0, g, cut, out
vars == <<g0, g, cut, out>>
Init == g0 \in {E \in SUBSET {e \in N \X N : e[1] # e[2]} : Cardinality(E) <= MaxE} /\ g = g0 /\ cut = {} /\ out = <<>>
Cut == /\ out = <<>>
       /\ \E S \in Sccs(N, g) : \E n \in S : \E side \in 1..2 :
            LET gone == {e \in g : e[side] = n /\ e[3 - side] \in S}
            IN g' = g \ gone /\ cut' = cut \cup gone
       /\ UNCHANGED <<g0, out>>
Emit == /\ Sccs(N, g) = {} /\ \E n \in N \ Ran(out) : (\A e \in g : e[2] = n => e[1] \in Ran(out)) /\ out' = Append(out, n)
        /\ UNCHANGED <<g0, g, cut>>
Next == Cut \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyCycles == \A e \in cut : InSame(Sccs(N, g0), e[1], e[2])
Sound == Len(out) = K => AutoOK(out, N, g0) /\ BrokenOK(cut, out, N, g0) /\ OutOfOrder(out, g0, cut) = {}
NoRepeat == IsInjective(out)
NotStuck == Len(out) < K => ENABLED Next
Ends == <>(Len(out) = K)
=============================================================================
