------------------------------ MODULE NLSolveMC ------------------------------
(* The solver loops over every sequence of iterates: an outer loop with an optional backtracking search in each pass. *)
EXTENDS NLSolve
CONSTANTS MAX, LSMAX
VARIABLES fs, pc, tries, failed, x, dirn, damp
vars == <<fs, pc, tries, failed, x, dirn, damp>>
F == [n : {"le", "gt"}, q : {"le", "gt"}, s : {"le", "gt"}, nan : BOOLEAN]
NoB == [h |-> FALSE, b |-> 0]
Lo == [h |-> TRUE, b |-> 0]
Up == [h |-> TRUE, b |-> 4]
Init == fs \in {<<f>> : f \in F} /\ pc = "loop" /\ tries = <<>> /\ failed = FALSE /\ x \in 0..4 /\ dirn = 0 /\ damp = 1
Last == fs[Len(fs)]
Stop == pc = "loop" /\ (Conv(Last) \/ Last.nan \/ Len(fs) >= MAX) /\ pc' = "done" /\ failed' = (~Conv(Last) \/ Len(fs) >= MAX) /\ UNCHANGED <<fs, tries, x, dirn, damp>>
Step == /\ pc = "loop" /\ ~Conv(Last) /\ ~Last.nan /\ Len(fs) < MAX
        /\ dirn' \in {-8, -3, 0, 3, 8} /\ damp' = 1
        /\ \E a \in {"ge", "lt"} : tries' = <<a>>
        /\ pc' = "search" /\ UNCHANGED <<fs, failed, x>>
Shorten == pc = "search" /\ tries[Len(tries)] = "lt" /\ Len(tries) <= LSMAX /\ damp' = damp * 2
           /\ \E a \in {"ge", "lt"} : tries' = Append(tries, a) /\ UNCHANGED <<fs, pc, failed, x, dirn>>
Accept == /\ pc = "search" /\ (tries[Len(tries)] = "ge" \/ Len(tries) = LSMAX + 1)
          /\ x' = Clip(x + dirn \div damp, Lo, Up) /\ pc' = "loop"
          /\ \E f \in F : fs' = Append(fs, f)
          /\ UNCHANGED <<tries, failed, dirn, damp>>
Spec == Init /\ [][Stop \/ Step \/ Shorten \/ Accept]_vars /\ WF_vars(Stop \/ Step \/ Shorten \/ Accept)
\* what the trace judge accepts is what the loops do
Stopped == pc = "done" => StopsRight(fs, 1, MAX) /\ (failed <=> Verdict(fs, 1, MAX) = "fail")
Limit == Len(fs) <= MAX
Bounded == Inside(x, Lo, Up)
Searched == pc = "loop" /\ tries # <<>> => SearchRight(tries, LSMAX)
Terminates == <>(pc = "done")
=============================================================================
