---------------------------- MODULE NLSolveTrace -----------------------------
(* Solves by the real iterative solvers judged against NLSolve: one event per solve, in order of completion. *)
EXTENDS NLSolve, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei
vars == <<ci, ei>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Init == ci = 1 /\ ei = 1
\* Ev.cut: an error of a component ended the solve; nothing is said about the last iterate then
Stops == IF Ev.cut THEN Len(Ev.fs) + Ev.first - 1 <= Ev.max \/ Len(Ev.fs) <= 1
         ELSE IF Ev.once THEN Len(Ev.fs) = 1 /\ ~Ev.raised
         ELSE StopsRight(Ev.fs, Ev.first, Ev.max)
Solve == /\ Chk(Stops, "C07:stops", <<Ev.sys, Ev.kind, Ev.max, Ev.fs, Ev.cut>>)
         /\ ~Ev.cut /\ ~Ev.once /\ Stops => Chk(ReportsRight(Ev.fs, Ev.first, Ev.max, Ev.err, Ev.raised, Ev.said), "C07:reports", <<Ev.sys, Ev.kind, Ev.max, Ev.fs, Ev.err, Ev.raised, Ev.said>>)
         \* relaxed steps of a Gauss-Seidel solve; factors in units of 1/1000
         /\ Chk(\A i \in 1..Len(Ev.rel) : LET w == Clip((Ev.rel[i].prev * Ev.rel[i].t) \div 1000, [h |-> TRUE, b |-> Ev.amin], [h |-> TRUE, b |-> Ev.amax])
                                          IN Max2(Ev.rel[i].a - w, w - Ev.rel[i].a) <= 3 + Max2(Ev.rel[i].t, -Ev.rel[i].t) \div 1000, "C07:relaxation", Ev.rel)
         /\ \A k \in 1..Len(Ev.steps) :
              LET st == Ev.steps[k] IN
              /\ Chk(\A t \in 1..Len(st.u) : \A i \in 1..Len(st.base) :
                        st.known[i] /\ ~(OnBound(st.base[i], st.d[i], Ev.lo[i], Ev.up[i]) /\ st.u[t][i] = st.base[i]) => StepRight(st.base[i], st.d[i], st.an[t], st.ad[t], Ev.lo[i], Ev.up[i], st.u[t][i]),
                     "C08:step", <<Ev.sys, st>>)
              /\ Chk(\A t \in 1..Len(st.u) : \A i \in 1..Len(st.base) :
                        st.known[i] /\ OnBound(st.base[i], st.d[i], Ev.lo[i], Ev.up[i]) /\ st.u[t][i] = st.base[i] => st.d[i] \in -30..30,
                     "C08:stuck-on-bound", Ev.sys)
              /\ Chk(\A t \in 1..Len(st.u) : \A i \in 1..Len(st.base) :
                        st.own[i] /\ Inside(st.base[i], Ev.lo[i], Ev.up[i]) => Inside(st.u[t][i], [h |-> Ev.lo[i].h, b |-> Ev.lo[i].b - 1], [h |-> Ev.up[i].h, b |-> Ev.up[i].b + 1]),
                     "C08:bounds", <<Ev.sys, st, Ev.lo, Ev.up>>)
              /\ Chk(\A t \in 1..Len(st.nums) : st.nums[t] = <<k, t - 1>>, "C08:search-numbering", <<Ev.sys, st.nums>>)
              /\ Ev.ls /\ ~st.cut => Chk(SearchRight(st.a, Ev.lsmax), "C08:search", <<Ev.sys, st.a, Ev.lsmax>>)
              /\ ~Ev.ls => Chk(Len(st.u) <= 1, "C08:search", <<Ev.sys, st>>)
              /\ Chk(st.kept, "C08:last-try-kept", <<Ev.sys, st>>)
Act == /\ IF Case.outcome # "done" THEN Bad("C07:no-outcome", Case.outcome)
          ELSE CASE Ev.op = "solve" -> Solve
                 [] Ev.op = "same"  -> Chk(Ev.same, "C07:depends-on-history", Ev.what)
                 [] Ev.op = "kept"  -> Chk(Ev.same, "C08:settings", Ev.what)
       /\ ei' = IF Case.outcome # "done" THEN Len(Case.ev) + 1 ELSE ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View_ == <<ci, ei>>
=============================================================================
