----------------------------- MODULE MetaModelMC -----------------------------
(* Exhaustive histories of one input of two columns and one output; the points are numbered as they are given. *)
EXTENDS MetaModel
VARIABLES st, k, hist
vars == <<st, k, hist>>
C == [ins |-> <<"a", "b">>, outs |-> <<"y">>]
Init == /\ st = [cur |-> [fi \in 1..1 |-> [x \in {"a", "b", "y"} |-> <<>>]], keptX |-> [fi \in 1..1 |-> <<>>],
                 keptY |-> [y \in {"y"} |-> [fi \in 1..1 |-> <<>>]], due |-> TRUE, warm |-> FALSE, n |-> 0]
        /\ k = 0 /\ hist = <<>>
Pts(m, w, o) == [i \in 1..m |-> [c \in 1..w |-> 10 * (k + i) + o + c]]
SetPts == k < 6 /\ \E m \in 1..2 : /\ st' = [st EXCEPT !.cur[1] = [x \in {"a", "b", "y"} |-> CASE x = "a" -> Pts(m, 2, 0) [] x = "b" -> Pts(m, 1, 2) [] x = "y" -> Pts(m, 1, 5)]]
                                   /\ k' = k + m /\ UNCHANGED hist
Ask == st' = [st EXCEPT !.due = TRUE] /\ UNCHANGED <<k, hist>>
Warm == st' = [st EXCEPT !.warm = ~@] /\ UNCHANGED <<k, hist>>
Run == /\ st.due /\ ~Refused(st) /\ st.n < 3 /\ st' = Train(st, C) /\ UNCHANGED k
       /\ hist' = (IF st.warm THEN hist ELSE <<>>) \o [i \in 1..Num(st.cur[1]) |-> st.cur[1]["y"][i][1]]
Spec == Init /\ [][SetPts \/ Ask \/ Warm \/ Run]_vars
\* inputs and outputs of a kept point belong together, and the kept points are those of the history
Paired == /\ Len(st.keptX[1]) = Len(st.keptY["y"][1])
          /\ \A i \in 1..Len(st.keptX[1]) : /\ st.keptX[1][i] = <<st.keptY["y"][1][i][1] - 5, st.keptY["y"][1][i][1] - 4, st.keptY["y"][1][i][1] - 3>>
                                            /\ st.keptY["y"][1][i][1] = hist[i]
=============================================================================
