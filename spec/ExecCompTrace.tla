---------------------------- MODULE ExecCompTrace ----------------------------
(* Histories of real ExecComps, judged against ExecComp. *)
EXTENDS ExecComp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, st
vars == <<ci, ei, st>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Start(c) == [val |-> c.init]
Init == ci = 1 /\ ei = 1 /\ st = Start(Cases[1])
Prog == Case.prog
Vars == Ins(Prog) \cup Outs(Prog)
Legal == Ran(Case.given) \subseteq Vars /\ DOMAIN Case.units \subseteq Vars
Decl ==
  /\ Chk(Ev.ok = Legal, "C22:verdict", <<Ev.ok, Ev.err>>)
  /\ Ev.ok => /\ Chk(Ran(Ev.ins) = Ins(Prog) /\ Ran(Ev.outs) = Outs(Prog), "C22:variables", <<Ev.ins, Ev.outs>>)
              /\ Chk(\A n \in DOMAIN Ev.val \cap Vars : Ev.val[n] = Case.init[n], "C22:initial", Ev.val)
              /\ Chk(\A n \in DOMAIN Ev.units : Ev.units[n] = (IF n \in DOMAIN Case.units THEN Case.units[n] ELSE ""), "C22:units", Ev.units)
  /\ UNCHANGED st
Run == LET w == After(st.val, Prog)
       IN /\ Chk(\A n \in Vars : Ev.val[n] = w[n], "C22:values", [n \in {m \in Vars : Ev.val[m] # w[m]} |-> <<Ev.val[n], w[n]>>])
          /\ st' = [st EXCEPT !.val = w]
JAt(u, p, j, i) == LET S == {k \in 1..Len(Ev.J) : Ev.J[k].u = u /\ Ev.J[k].p = p}
                   IN IF S = {} THEN RZero ELSE Ev.J[CHOOSE k \in S : TRUE].m[j][i]
Shaped == \A k \in 1..Len(Ev.J) : /\ Ev.J[k].u \in Outs(Prog) /\ Ev.J[k].p \in Ins(Prog) /\ Len(Ev.J[k].m) = Len(st.val[Ev.J[k].u])
                                  /\ \A j \in 1..Len(Ev.J[k].m) : Len(Ev.J[k].m[j]) = Len(st.val[Ev.J[k].p])
Lin == LET w == Jac(st.val, Prog)
           Wrong == {x \in UNION {{<<u, j, k>> : j \in 1..Len(st.val[u]), k \in Entries(st.val, Ins(Prog))} : u \in Outs(Prog)} :
                       JAt(x[1], x[3][1], x[2], x[3][2]) # w[x[1]][x[2]][2][x[3]]}
       IN /\ Chk(Shaped, "C22:jacobian-shape", Ev.J)
          /\ Shaped => Chk(Wrong = {}, "C22:derivatives", Wrong)
          /\ Chk(\A n \in Vars : Ev.val[n] = st.val[n], "C22:purity", Ev.val)
          /\ UNCHANGED st
Act == IF Case.outcome # "done" THEN Bad("C22:no-outcome", Case.outcome) /\ UNCHANGED st /\ ei' = Len(Case.ev) + 1
       ELSE /\ CASE Ev.op = "decl" -> Decl
                 [] Ev.op = "set" -> st' = [st EXCEPT !.val[Ev.n] = Ev.v]
                 [] Ev.op = "run" -> Run
                 [] Ev.op = "lin" -> Lin
            /\ ei' = ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ st' = Start(Cases[ci + 1])
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
