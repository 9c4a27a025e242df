--------------------------- MODULE MetaModelTrace ----------------------------
(* Histories of the real surrogate components judged against MetaModel. *)
EXTENDS MetaModel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, st
vars == <<ci, ei, st>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Ran(s) == {s[i] : i \in 1..Len(s)}
Start(c) == [cur |-> [fi \in 1..c.nfi |-> [x \in Ran(c.ins) \cup Ran(c.outs) |-> <<>>]],
             keptX |-> [fi \in 1..c.nfi |-> <<>>], keptY |-> [o \in Ran(c.outs) |-> [fi \in 1..c.nfi |-> <<>>]],
             due |-> FALSE, warm |-> FALSE, n |-> 0]
Init == ci = 1 /\ ei = 1 /\ st = Start(Cases[1])
SumTo(f, n) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + f[k] IN S(n)
\* what the stand-in surrogate with tag t answers at x after n trainings of that surrogate
Pred(t, n, x, j) == 1000 * t + 100 * n + j * SumTo([k \in 1..Len(x) |-> k * x[k]], Len(x))
RunJudge(s0) ==
  LET ref == s0.due /\ Refused(s0)
      s1 == IF s0.due /\ ~ref THEN Train(s0, Case) ELSE s0
      calls == Ev.trained
      OutCalls(o) == {i \in 1..Len(calls) : calls[i].tag = Case.tags[o]}
  IN /\ Chk(Ev.err = ref, "C20:refused", Ev.what)
     /\ ~Ev.err /\ ~ref =>
        /\ Chk(\A o \in Ran(Case.outs) : Cardinality(OutCalls(o)) = (IF s0.due THEN 1 ELSE 0), "C20:trained-once", <<s0.due, [i \in 1..Len(calls) |-> calls[i].tag]>>)
        /\ s0.due => \A o \in Ran(Case.outs) : \A i \in OutCalls(o) :
              /\ Chk(calls[i].X = [fi \in 1..Case.nfi |-> s1.keptX[fi]], "C20:training-inputs", calls[i].X)
              /\ Chk(calls[i].Y = [fi \in 1..Case.nfi |-> s1.keptY[o][fi]], "C20:training-outputs", calls[i].Y)
        /\ \A o \in Ran(Case.outs) :
              Chk(Ev.out[o] = [j \in 1..Case.size[o] |-> Pred(Case.tags[o], s1.n, Ev.x, j)], "C20:prediction", <<o, Ev.out[o], Ev.x>>)
        /\ Ev.lin => \A o \in Ran(Case.outs) : \A p \in Ran(Case.ins) :
              Chk(Ev.jac[o][p] = [j \in 1..Case.size[o] |-> [k \in 1..Case.size[p] |-> j * (Case.off[p] + k) + Case.tags[o]]], "C20:derivative", <<o, p, Ev.jac[o][p]>>)
Act == IF Case.outcome # "done" THEN Bad("C20:no-outcome", Case.outcome) /\ UNCHANGED st /\ ei' = Len(Case.ev) + 1
       ELSE /\ CASE Ev.op = "setup"   -> st' = [st EXCEPT !.due = TRUE]
                 [] Ev.op = "request" -> st' = [st EXCEPT !.due = TRUE]
                 [] Ev.op = "warm"    -> st' = [st EXCEPT !.warm = Ev.b]
                 [] Ev.op = "set"     -> st' = [st EXCEPT !.cur[Ev.fi][Ev.name] = Ev.rows]
                 [] Ev.op = "run"     -> RunJudge(st) /\ st' = IF st.due /\ ~Refused(st) THEN Train(st, Case) ELSE st
            /\ ei' = ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ st' = Start(Cases[ci + 1])
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
