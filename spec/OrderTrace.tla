----------------------------- MODULE OrderTrace ------------------------------
(* Histories of set_order, connect, add, setup and run on real groups, judged against Order. *)
EXTENDS Order, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, st
vars == <<ci, ei, st>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
\* st.par : path -> parent path, st.grp : groups, st.dep : dependencies between components, st.user : group -> order or <<>>
Start(c) == [par |-> c.par, grp |-> Ran(c.groups) \cup {""}, dep |-> {}, user |-> [x \in Ran(c.groups) \cup {""} |-> <<>>],
             order |-> <<>>, up |-> FALSE]
Init == ci = 1 /\ ei = 1 /\ st = Start(Cases[1])
Kids(s, gp) == {p \in DOMAIN s.par : s.par[p] = gp /\ p # ""}
RECURSIVE ChildIn(_, _, _)
ChildIn(s, gp, p) == IF p = "" THEN "" ELSE IF s.par[p] = gp THEN p ELSE ChildIn(s, gp, s.par[p])
Deps(s, gp) == {<<a, b>> \in {<<ChildIn(s, gp, e[1]), ChildIn(s, gp, e[2])>> : e \in s.dep} : a # "" /\ b # "" /\ a # b}
Pairs(x) == {<<x[i][1], x[i][2]>> : i \in 1..Len(x)}
RECURSIVE Flat(_, _, _)
Flat(s, ord, p) == IF p \notin s.grp THEN <<p>> ELSE FlattenSeq([i \in 1..Len(ord[p]) |-> Flat(s, ord, ord[p][i])])
Judge(s, r) ==
  LET N == Kids(s, r.g) E == Deps(s, r.g) b == Pairs(r.broken)
  IN /\ IF s.user[r.g] # <<>> THEN Chk(r.order = s.user[r.g], "C03:user-order", <<r.g, r.order, s.user[r.g]>>)
        ELSE Chk(AutoOK(r.order, N, E), "C03:auto-order", <<r.g, r.order, E>>)
     /\ Chk(AutoOK(r.auto, N, E), "C03:listed-order", <<r.g, r.auto, E>>)
     /\ Chk(BrokenOK(b, r.auto, N, E), "C03:broken-edges", <<r.g, b, r.auto>>)
     /\ Chk(~IsPerm(r.order, N) \/ Pairs(r.ooo) = OutOfOrder(r.order, E, b), "C03:out-of-order", <<r.g, r.ooo>>)
     /\ Chk({Ran(c) : c \in Ran(r.cycles)} = Sccs(N, E) /\ Len(r.cycles) = Cardinality(Sccs(N, E)), "C03:cycles", <<r.g, r.cycles>>)
     /\ Chk(~IsPerm(r.order, N) \/ \A i \in 1..Len(r.cycles) : \A j \in 1..(Len(r.cycles[i]) - 1) :
              At(r.order, r.cycles[i][j]) < At(r.order, r.cycles[i][j + 1]), "C03:cycle-order", <<r.g, r.cycles, r.order>>)
Setup ==
  LET loops == {gp \in st.grp : Sccs(Kids(st, gp), Deps(st, gp)) # {}}
  IN /\ IF Case.lngs /\ loops # {} THEN Chk(~Ev.ok /\ Ev.refused, "C03:loop-not-refused", loops)
        ELSE Chk(Ev.ok, "C03:setup-failed", Ev.err)
     /\ Ev.ok => \A i \in 1..Len(Ev.groups) : Judge(st, Ev.groups[i])
     /\ st' = [st EXCEPT !.up = Ev.ok,
                 !.order = IF Ev.ok THEN [gp \in st.grp |-> (CHOOSE r \in Ran(Ev.groups) : r.g = gp).order] ELSE <<>>]
Act == IF Case.outcome # "done" THEN Bad("C03:no-outcome", Case.outcome) /\ UNCHANGED st /\ ei' = Len(Case.ev) + 1
       ELSE /\ CASE Ev.op = "connect" -> st' = [st EXCEPT !.dep = @ \cup Pairs(Ev.edges)]
                 [] Ev.op = "add" -> /\ Chk(Ev.ok = (st.user[Ev.parent] = <<>>), "C03:add", Ev.path)
                                     /\ st' = IF Ev.ok THEN [st EXCEPT !.par = (Ev.path :> Ev.parent) @@ @] ELSE st
                 [] Ev.op = "order" -> /\ Chk(Ev.ok = Accepts(Ev.order, Kids(st, Ev.g)), "C03:order-verdict", <<Ev.g, Ev.order>>)
                                       /\ Chk(Ev.after = (IF Ev.ok THEN Ev.order ELSE Ev.before), "C03:order-frame", <<Ev.g, Ev.before, Ev.after>>)
                                       /\ st' = IF Ev.ok THEN [st EXCEPT !.user[Ev.g] = Ev.order] ELSE st
                 [] Ev.op = "setup" -> Setup
                 [] Ev.op = "run" -> /\ st.up => Chk(Ev.log = Flat(st, st.order, ""), "C03:execution", <<Ev.log, st.order>>)
                                     /\ UNCHANGED st
            /\ ei' = ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ st' = Start(Cases[ci + 1])
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
