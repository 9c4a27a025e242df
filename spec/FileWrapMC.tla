----------------------------- MODULE FileWrapMC ----------------------------
(* Exhaustive exploration of anchors over all files of up to four short lines. *)
EXTENDS FileWrap
VARIABLES lines, row, anch
vars == <<lines, row, anch>>
Pool == {"a 1\n", "b a 2\n", "c\n", "b\n"}
Files == UNION {[1..n -> Pool] : n \in 1..4}
Init == lines \in Files /\ row = 1 /\ anch = FALSE
Occ == {-3, -2, -1, 1, 2, 3}
Next == \/ row' = 1 /\ anch' = FALSE /\ UNCHANGED lines
        \/ \E t \in {"a", "b", "b a", "z"}, o \in Occ :
             LET r == Find(lines, row, anch, t, o)
             IN r # 0 /\ row' = r /\ anch' = TRUE /\ UNCHANGED lines
Spec == Init /\ [][Next]_vars
TypeOK == row \in 1..Len(lines)
\* the n-th occurrence forward comes after the (n-1)-th; searching twice for the next equals searching once for the second
Order == \A t \in {"a", "b"} :
  LET r1 == Find(lines, row, anch, t, 1) r2 == Find(lines, row, anch, t, 2)
  IN /\ r1 # 0 => Has(lines[r1], t) /\ r1 >= row
     /\ r2 # 0 => r1 # 0 /\ r1 < r2 /\ Find(lines, r1, TRUE, t, 1) = r2
     /\ r1 # 0 /\ r2 = 0 => Find(lines, r1, TRUE, t, 1) = 0
     /\ LET l == Find(lines, row, anch, t, -1) IN l # 0 => \A k \in (l + 1)..Len(lines) : ~Has(lines[k], t) \/ (anch /\ k = Len(lines))
\* fields partition a line: put together with what is between them they give it back
Parts == \A i \in 1..Len(lines) :
  LET f == Fields(lines[i], {" "})
  IN \A k \in 1..Len(f) : f[k][1] <= f[k][2] /\ (k > 1 => f[k-1][2] < f[k][1] - 0) /\ ~Has(Word(lines[i], f[k]), " ")
=============================================================================
