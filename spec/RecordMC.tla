------------------------------ MODULE RecordMC -------------------------------
(* Three nested groups with any solvers, any numbers of iterations and line searches, under a driver iterating several
   times: every completed iteration has a coordinate of its own, which begins with the iterations it happened in. *)
EXTENDS Record
CONSTANTS MaxDriver, MaxIt, Levels
Names == <<"root", "g", "h">>
G(i) == Names[i]
VARIABLES s, ph, kid, its     \* per level: "sweep" | "eval" | "idle" | "over"; whether the child was solved in this sweep; iterations so far
vars == <<s, ph, kid, its>>
D == Len(s.stk)
K == s.kind[G(D)]
Init == /\ \E k \in [1..Levels -> {"once", "gs", "newton"}] : s = [Idle([g \in {G(i) : i \in 1..Levels} |-> k[CHOOSE i \in 1..Levels : G(i) = g]]) EXCEPT !.name = "Driver"]
        /\ ph = [i \in 1..Levels |-> "over"] /\ kid = [i \in 1..Levels |-> FALSE] /\ its = [i \in 1..Levels |-> 0]
Open == /\ D < Levels /\ (D = 0 => s.it < MaxDriver) /\ (D > 0 => ph[D] = "sweep" /\ ~kid[D])
        /\ s' = Enter(s, G(D + 1), G(D + 1)) /\ ph' = [ph EXCEPT ![D + 1] = "sweep"]
        /\ kid' = [i \in 1..Levels |-> IF i = D THEN TRUE ELSE IF i = D + 1 THEN FALSE ELSE kid[i]] /\ its' = [its EXCEPT ![D + 1] = 0]
EndSweep == /\ D > 0 /\ ph[D] = "sweep" /\ (D < Levels => kid[D])
            /\ s' = Sweep(s, G(D)) /\ kid' = [kid EXCEPT ![D] = FALSE] /\ its' = [its EXCEPT ![D] = IF K = "newton" THEN @ ELSE @ + 1]
            /\ ph' = [ph EXCEPT ![D] = CASE K = "once" -> "over" [] K = "gs" -> IF its[D] + 1 < MaxIt THEN "sweep" ELSE "over" [] K = "newton" -> IF s.stk[D].lin THEN "eval" ELSE "idle"]
Linearize == /\ D > 0 /\ ph[D] = "idle" /\ its[D] < MaxIt
             /\ s' = Lin(s, G(D)) /\ \E x \in {"sweep", "eval"} : ph' = [ph EXCEPT ![D] = x]
             /\ its' = [its EXCEPT ![D] = @ + 1] /\ UNCHANGED kid
Evaluate == /\ D > 0 /\ ph[D] = "eval" /\ s' = Apply(s, G(D))
            /\ \E x \in {"idle"} \cup (IF Top(s).n[2] = 0 THEN {"sweep", "eval"} ELSE {}) : ph' = [ph EXCEPT ![D] = x]
            /\ UNCHANGED <<kid, its>>
Close == /\ D > 0 /\ \/ ph[D] \in {"idle", "over"}
                     \/ ph[D] = "sweep" /\ K = "gs" /\ its[D] > 0 /\ ~kid[D]
         /\ s' = Exit(s, G(D)) /\ ph' = [ph EXCEPT ![D] = "over"] /\ kid' = [kid EXCEPT ![D] = FALSE] /\ UNCHANGED its
Next == Open \/ EndSweep \/ Linearize \/ Evaluate \/ Close
Spec == Init /\ [][Next]_vars
Coord(i) == s.done[i][2]
Unique == \A i, j \in 1..Len(s.done) : Coord(i) = Coord(j) => i = j
Nested == \A i \in 1..Len(s.done) : Coord(i)[1][1] = "Driver" /\ (s.done[i][1] # "#driver" => Last(Coord(i))[1] = s.done[i][1])
\* an iteration ends after everything done inside it: what carries its coordinate as a prefix was completed before
Before == \A i \in 1..Len(s.done) : \A j \in (i + 1)..Len(s.done) : ~IsPrefix(Coord(i), Coord(j))
=============================================================================
