------------------------------ MODULE CoreTrace ------------------------------
(* Trace validation of whole-model behaviour.  Each line of the trace file is one case: a declaration m and the
   events observed while the real library set it up and ran it.  The state of the specification is the wiring
   implied by the declaration, the current value of every variable, and a stack of the groups being executed;
   each event is one transition.  Every clause is evaluated at every step; a clause that fails is reported by name
   and the state is resynchronised with the observation so that the rest of the trace is still checked. *)
EXTENDS ModelSys, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, ei, w, vals, stk, exed, jac, drv
vars == <<ci, ei, w, vals, stk, exed, jac, drv>>

Case == Cases[ci]
M == Case.m
Tol == Case.tol
Ev == Case.ev[ei]
Bad(clause, detail) == PrintT(<<"BAD", ToJson(<<Case.id, clause, detail>>)>>)
Chk(cond, clause, detail) == IF cond THEN TRUE ELSE Bad(clause, detail)

NoWire == [errs |-> {}, verdict |-> "none", root |-> <<>>, src |-> <<>>, idx |-> <<>>, free |-> {}, group |-> <<>>,
           ins |-> {}, outs |-> {}]
InitVals(c) == [v \in 1..Len(Cases[c].m.vars) |-> Cases[c].m.vars[v].val]

NoJac == [of |-> <<>>, wrt |-> <<>>, J |-> <<>>]
NoDrv == [dvs |-> <<>>, fns |-> <<>>, same |-> FALSE]
Init == /\ TLCSet(1, FALSE) /\ ci = 1 /\ ei = 1 /\ w = NoWire /\ vals = InitVals(1) /\ stk = <<>> /\ exed = {} /\ jac = NoJac /\ drv = NoDrv

VarName(v) == M.vars[v].comp \o "." \o M.vars[v].name
InVars(c) == SelectSeq([k \in 1..Len(M.vars) |-> k], LAMBDA v : M.vars[v].comp = c /\ M.vars[v].io = "in")
OutVars(c) == SelectSeq([k \in 1..Len(M.vars) |-> k], LAMBDA v : M.vars[v].comp = c /\ M.vars[v].io # "in")
UserOrder(g) == LET S == {i \in 1..Len(M.order) : M.order[i][1] = g} IN
                IF S = {} THEN <<>> ELSE M.order[CHOOSE i \in S : TRUE][2]
PathIn(g, n) == IF g = "" THEN n ELSE g \o "." \o n
Kind(p) == Sub(M, p).kind
Solver(g) == IF g = "" THEN M.rootsolv.nl ELSE Sub(M, g).solv.nl
LinSolver(g) == IF g = "" THEN M.rootsolv.ln ELSE Sub(M, g).solv.ln
\* a cycle among the children of g needs a linear solver that copes with it at g or above
RECURSIVE IterAbove(_)
IterAbove(g) == IF g = "" THEN FALSE ELSE LET p == Sub(M, g).parent IN LinSolver(p) # "lngs" \/ IterAbove(p)
AllGroups == {""} \cup {M.subs[i].path : i \in {j \in 1..Len(M.subs) : M.subs[j].kind = "group"}}
BadCycle(ww) == \E g \in AllGroups : LinSolver(g) = "lngs" /\ ~IterAbove(g) /\ ~Acyclic(M, ww, g)

RECURSIVE SetToSeqF(_)
SetToSeqF(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqF(S \ {x})

Names(S) == {w.root[v] : v \in S}
\* children of g that lie on a dependency cycle, as a set of sets
CycleSets(ww, g) == LET D == ProperDeps(M, ww, g) n == Cardinality(Children(M, g)) + 1
                        scc(c) == {x \in Children(M, g) : x = c \/ (x \in Reach({c}, D, n) /\ c \in Reach({x}, D, n))}
                    IN {s \in {scc(c) : c \in Children(M, g)} : Cardinality(s) > 1}
Last(p) == Sub(M, p).name
EvCycles == {{Range(Ev.cyc[i][j]) : j \in 1..Len(Ev.cyc[i])} : i \in 1..Len(Ev.cyc)}
WantCycles(ww) == {{{Last(p) : p \in s} : s \in CycleSets(ww, g)} : g \in {h \in AllGroups : CycleSets(ww, h) # {}}}
\* out of order subsystems in acyclic groups with a user order
OooOK(ww) ==
  \A g \in {h \in AllGroups : Acyclic(M, ww, h)} :
     LET uo == UserOrder(g)
         pos(n) == CHOOSE k \in 1..Len(uo) : uo[k] = n
         D == ProperDeps(M, ww, g)  n == Len(uo) + 1
         want == IF uo = <<>> THEN {} ELSE
                 {<<a, b>> \in Range(uo) \X Range(uo) : PathIn(g, b) \in Reach({PathIn(g, a)}, D, n) /\ pos(b) < pos(a)}
         got2 == UNION {UNION {{<<Ev.ooo[i][2][j][2][k], Ev.ooo[i][2][j][1]>> : k \in 1..Len(Ev.ooo[i][2][j][2])} :
                   j \in 1..Len(Ev.ooo[i][2])} : i \in {x \in 1..Len(Ev.ooo) : Ev.ooo[x][1] = g}}
     IN got2 = want

Setup ==
  /\ Ev.e = "setup"
  /\ LET ww == Wire(M)
         v == IF ww.verdict = "ok" /\ BadCycle(ww) THEN "error" ELSE ww.verdict
     IN /\ w' = ww
        /\ IF v = "ok" THEN Chk(Ev.ok, "C02:rejected-wellformed", Ev.err)
           ELSE IF v = "error" THEN Chk(~Ev.ok, "C02:accepted-illformed", ww.errs)
           ELSE TRUE
        /\ IF v = "ok" /\ Ev.ok
           THEN /\ Chk(Range(Ev.dang) = {ww.root[t] : t \in ww.free}, "C02:unconnected-report", Ev.dang)
                /\ Chk(EvCycles = WantCycles(ww), "C02:cycle-report", Ev.cyc)
                /\ Chk(OooOK(ww), "C02:order-report", Ev.ooo)
           ELSE TRUE
        /\ ei' = IF v = "ok" /\ Ev.ok THEN ei + 1 ELSE Len(Case.ev) + 1
  /\ vals' = InitVals(ci) /\ stk' = <<>> /\ exed' = {}
  /\ UNCHANGED <<ci, jac, drv>>

\* unsized inputs take the value of their source at setup, and are always connected
Expected(v) == vals[v]
Read ==
  /\ Ev.e = "read"
  /\ \A v \in w.outs \cup w.free :
        Chk(SeqClose(Ev.vals[v], Expected(v), Tol), "C01:value-read", <<VarName(v), Ev.vals[v], vals[v]>>)
  /\ vals' = [v \in DOMAIN vals |-> IF v \in w.outs \cup w.free THEN Ev.vals[v] ELSE vals[v]]
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, stk, exed, jac, drv>>

Set ==
  /\ Ev.e = "set"
  /\ Chk(Ev.ok, "C01:set-refused", VarName(Ev.v))
  /\ vals' = [v \in DOMAIN vals |-> IF v = Ev.v \/ (Ev.v \in w.free /\ v \in w.group[Ev.v]) THEN Ev.val ELSE vals[v]]
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, stk, exed, jac, drv>>

(* ---- execution: a stack of [g, seen, passes] ---- *)
Begin == /\ Ev.e = "begin" /\ stk' = <<>> /\ exed' = {}
         /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, jac, drv>>

Top == stk[Len(stk)]
Push(s, x) == Append(s, x)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Visible(g) == {c \in Children(M, g) : Kind(c) # "indep"}    \* children whose execution is observable
VisOrder(g) == SelectSeq(UserOrder(g), LAMBDA n : PathIn(g, n) \in Visible(g))

\* child c starts in the group on top of the stack
Start(c) ==
  LET t == Top
      fresh == t.seen = <<>> \/ Range(t.seen) = Visible(t.g)
      seen0 == IF fresh THEN <<>> ELSE t.seen
      uo == VisOrder(t.g)
      seen1 == Append(seen0, c)
  IN /\ Chk(Sub(M, c).parent = t.g, "C03:not-a-child", <<c, t.g>>)
     /\ Chk(c \notin Range(seen0), "C03:repeated-in-pass", <<c, t.g>>)
     /\ Chk(~(fresh /\ t.seen # <<>> /\ Solver(t.g) = "runonce"), "C03:second-pass", <<c, t.g>>)
     /\ IF uo # <<>> THEN Chk(Len(seen1) <= Len(uo) /\ PathIn(t.g, uo[Len(seen1)]) = c, "C03:user-order", <<c, uo>>)
        ELSE Chk(\A d \in Before(M, w, t.g) : (d[2] = c /\ d[1] \in Visible(t.g)) => d[1] \in Range(seen0), "C03:before-source", <<c, seen0>>)
     /\ stk' = [stk EXCEPT ![Len(stk)].seen = seen1]

Enter ==
  /\ Ev.e = "enter"
  /\ IF stk = <<>> THEN Chk(Ev.g = "", "C03:root-entry", Ev.g) /\ stk' = <<[g |-> Ev.g, seen |-> <<>>]>>
     ELSE LET t == Top
              fresh == t.seen = <<>> \/ Range(t.seen) = Visible(t.g)
              seen0 == IF fresh THEN <<>> ELSE t.seen
              seen1 == Append(seen0, Ev.g)
              uo == VisOrder(t.g)
          IN /\ Chk(Sub(M, Ev.g).parent = t.g, "C03:not-a-child", <<Ev.g, t.g>>)
             /\ Chk(Ev.g \notin Range(seen0), "C03:repeated-in-pass", <<Ev.g, t.g>>)
             /\ Chk(~(fresh /\ t.seen # <<>> /\ Solver(t.g) = "runonce"), "C03:second-pass", <<Ev.g, t.g>>)
             /\ IF uo # <<>> THEN Chk(Len(seen1) <= Len(uo) /\ PathIn(t.g, uo[Len(seen1)]) = Ev.g, "C03:user-order", <<Ev.g, uo>>)
                ELSE Chk(\A d \in Before(M, w, t.g) : (d[2] = Ev.g /\ d[1] \in Visible(t.g)) => d[1] \in Range(seen0),
                         "C03:before-source", <<Ev.g, seen0>>)
             /\ stk' = Push([stk EXCEPT ![Len(stk)].seen = seen1], [g |-> Ev.g, seen |-> <<>>])
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, exed, jac, drv>>

Exit ==
  /\ Ev.e = "exit"
  /\ IF stk = <<>> THEN Bad("C03:exit-without-enter", Ev.g) /\ stk' = stk
     ELSE /\ Chk(Top.g = Ev.g, "C03:exit-mismatch", <<Top.g, Ev.g>>)
          /\ Chk(Range(Top.seen) = Visible(Top.g), "C03:not-every-subsystem", <<Top.g, Top.seen>>)
          /\ stk' = Pop(stk)
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, exed, jac, drv>>

Env(c, p) == [v \in Range(InVars(c)) |-> p[CHOOSE k \in 1..Len(p) : InVars(c)[k] = v]]

ExecChecks ==
  LET c == Ev.c  iv == InVars(c)  ov == OutVars(c) IN
  /\ Chk(Len(Ev.p) = Len(iv) /\ Len(Ev.o) = Len(ov), "C01:arity", c)
  /\ \A k \in 1..Len(iv) :
       LET want == InputVal(M, w, vals, iv[k]) IN
       Chk(SeqClose(Ev.p[k], want, Tol), IF w.src[iv[k]] = 0 THEN "C01:unconnected-input" ELSE "C01:input-is-source",
           <<VarName(iv[k]), Ev.p[k], want>>)
ExecOut ==
  LET c == Ev.c  ov == OutVars(c)  e == Env(c, Ev.p) IN
  \A k \in 1..Len(ov) :
     LET want == [j \in 1..Len(M.fn[ov[k]]) |-> PolyVal(e, M.fn[ov[k]][j], 1)] IN
     Chk(SeqClose(Ev.o[k], want, Tol), "C01:output-stored", <<VarName(ov[k]), Ev.o[k], want>>)

\* order bookkeeping of a component that runs outside residual evaluation
Exec ==
  /\ Ev.e = "exec"
  /\ ExecChecks /\ ExecOut
  /\ IF Ev.r \/ stk = <<>>
     THEN stk' = stk /\ vals' = vals
     ELSE /\ Start(Ev.c)
          /\ vals' = [v \in DOMAIN vals |-> IF M.vars[v].comp = Ev.c /\ M.vars[v].io # "in"
                        THEN Ev.o[CHOOSE k \in 1..Len(Ev.o) : OutVars(Ev.c)[k] = v]
                        ELSE IF v \in Range(InVars(Ev.c)) /\ w.src[v] # 0     \* what a connected input was when its component ran
                        THEN Ev.p[CHOOSE k \in 1..Len(Ev.p) : InVars(Ev.c)[k] = v] ELSE vals[v]]
  /\ exed' = IF Ev.r THEN exed ELSE exed \cup {Ev.c}
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, jac, drv>>

(* ---- total derivatives ----
   Ev.J[i][j] is the block d of[i] / d wrt[j] (rows entries of the output, columns entries of the input), with wrt
   listing every independent output and of every other output.  The blocks must solve, for every component, the
   linearised equations of that component at the current values (the chain rule, exactly). *)
ColW == UNION {{<<j, c>> : c \in 1..M.vars[Ev.wrt[j]].size} : j \in 1..Len(Ev.wrt)}
OfIx(v) == CHOOSE i \in 1..Len(Ev.of) : Ev.of[i] = v
\* derivative of entry k (1-based) of output u with respect to column q
DU(u, k, q) == IF u \in Range(Ev.wrt) THEN (IF Ev.wrt[q[1]] = u /\ q[2] = k THEN ROne ELSE RZero)
               ELSE IF u \in Range(Ev.of) THEN Ev.J[OfIx(u)][q[1]][k][q[2]] ELSE RZero
\* derivative of entry k of input t
DP(t, k, q) == IF w.src[t] = 0 THEN RZero
               ELSE RMul(ConvFac(M, w.src[t], t), DU(w.src[t], w.idx[t][k] + 1, q))
GradShape == /\ Len(Ev.J) = Len(Ev.of)
             /\ \A i \in 1..Len(Ev.of) : Len(Ev.J[i]) = Len(Ev.wrt) /\ \A j \in 1..Len(Ev.wrt) :
                   Len(Ev.J[i][j]) = M.vars[Ev.of[i]].size /\ \A r \in 1..Len(Ev.J[i][j]) :
                   Len(Ev.J[i][j][r]) = M.vars[Ev.wrt[j]].size
Implicit(c) == Kind(c) = "impl"
\* ---- numerical partial derivatives of a component, exactly as declared (form, step, scaling of the step) ----
FdOf(c) == Sub(M, c).fd
FdOpt(c, x) == LET f == FdOf(c) P == {i \in 1..Len(f.pp) : f.pp[i].v = x} IN
               IF P = {} THEN f ELSE f.pp[CHOOSE i \in P : TRUE]
FdStep(opt, x0) == IF opt.calc = "relative" THEN RMax(RMul(x0, opt.step), opt.step) ELSE opt.step
\* a connected input is perturbed in the units of its source
StepIn(opt, x, j) == IF w.src[x] = 0 THEN FdStep(opt, vals[x][j])
                     ELSE RMul(ConvFac(M, w.src[x], x), FdStep(opt, vals[w.src[x]][w.idx[x][j] + 1]))
Quot(form, h, minus, at, plus) == IF form = "forward" THEN RDiv(RSub(plus, at), h)
                                  ELSE IF form = "backward" THEN RDiv(RSub(at, minus), h)
                                  ELSE RDiv(RSub(plus, minus), RMul(R(2), h))
\* the difference quotient of a polynomial with the settings opt
QuotBy(opt, env, ts, x, j) ==
  LET h == StepIn(opt, x, j)
      f(d) == PolyVal([env EXCEPT ![x] = [@ EXCEPT ![j] = RAdd(@, d)]], ts, 1)
  IN Quot(opt.form, h, f(RNeg(h)), f(RZero), f(h))
\* the derivative of entry e of o a component declares in a direction: possibly wrong, possibly left out
Wrongs == IF "wrong" \in DOMAIN M THEN M.wrong ELSE <<>>
WrongAt(o, e, x, j, way) == {i \in 1..Len(Wrongs) : Wrongs[i].o = o /\ Wrongs[i].x = x /\ Wrongs[i].r = e /\ Wrongs[i].k = j
                                                   /\ Wrongs[i].dir \in {"both", way}}
Omitted(o, x) == "nojac" \in DOMAIN M /\ \E i \in 1..Len(M.nojac) : M.nojac[i] = <<o, x>>
Declares(env, o, e, x, j, way) ==
  IF Omitted(o, x) THEN RZero
  ELSE LET d == PolyDer(env, M.fn[o][e], x, j, 1) S == WrongAt(o, e, x, j, way)
       IN IF S = {} THEN d ELSE RAdd(d, Wrongs[CHOOSE i \in S : TRUE].d)
Part(c, env, o, e, x, j) ==
  IF Kind(c) \notin {"comp", "mf"} \/ FdOf(c).type # "fd" THEN Declares(env, o, e, x, j, IF Ev.mode = "rev" THEN "rev" ELSE "fwd")
  ELSE QuotBy(FdOpt(c, x), env, M.fn[o][e], x, j)
GradOut(o, q) ==
  LET c == M.vars[o].comp
      iv == InVars(c)
      env == [v \in Range(iv) |-> InputVal(M, w, vals, v)] @@ (o :> vals[o])
  IN \A e \in 1..M.vars[o].size :
       LET ts == M.fn[o][e]
           \* partial derivatives only with respect to what the polynomial mentions
           fac == UNION {Range(ts[k].v) : k \in 1..Len(ts)} \cup {<<Wrongs[i].x, Wrongs[i].k>> : i \in {i \in 1..Len(Wrongs) : Wrongs[i].o = o /\ Wrongs[i].r = e}}
           tot == RSum([k \in 1..Cardinality(fac) |->
                    LET x == SetToSeqF(fac)[k] IN
                    RMul(Part(c, env, o, e, x[1], x[2]), IF x[1] = o THEN DU(o, x[2], q) ELSE DP(x[1], x[2], q))])
       IN IF Implicit(c) THEN Chk(RClose(tot, RZero, Tol), IF Ev.cl = "C04:chain-rule" THEN "C04:implicit-equation" ELSE Ev.cl, <<VarName(o), e, q, tot>>)
          ELSE Chk(RClose(DU(o, e, q), tot, Tol), Ev.cl, <<VarName(o), e, Ev.wrt[q[1]], q[2], DU(o, e, q), tot, Ev.mode>>)
\* the current values satisfy every explicit component's equations (a single pass over a cycle need not): only then
\* is the linearisation point the one that is visible from outside
Consistent ==
  \A o \in w.outs : Kind(M.vars[o].comp) \notin {"comp", "mf"} \/
     LET iv == InVars(M.vars[o].comp)
         env == [v \in Range(iv) |-> InputVal(M, w, vals, v)]
     IN /\ SeqClose(vals[o], [j \in 1..Len(M.fn[o]) |-> PolyVal(env, M.fn[o][j], 1)], Tol)
        \* (also when the value does not happen to depend on an input that is out of date)
        /\ \A v \in Range(iv) : w.src[v] = 0 \/ vals[v] = <<>> \/ SeqClose(vals[v], env[v], Tol)
\* ---- numerical differentiation of the whole model: the model is run at perturbed values of the independent ones.
\* Case.topo is an order of the components compatible with the data flow.
RECURSIVE EvalFrom(_, _)
EvalFrom(vs, k) ==
  IF k > Len(Case.topo) THEN vs
  ELSE LET c == Case.topo[k]
           env == [v \in Range(InVars(c)) |-> InputVal(M, w, vs, v)]
           \* a state solves f(inputs) - a s = 0
           state(v) == LET en == (v :> [e \in 1..Len(M.fn[v]) |-> RZero]) @@ env
                       IN [e \in 1..Len(M.fn[v]) |-> RNeg(RDiv(PolyVal(en, M.fn[v][e], 1), PolyDer(en, M.fn[v][e], v, e, 1)))]
       IN EvalFrom([v \in DOMAIN vs |-> IF M.vars[v].comp = c /\ M.vars[v].io # "in"
                      THEN IF Implicit(c) THEN state(v) ELSE [e \in 1..Len(M.fn[v]) |-> PolyVal(env, M.fn[v][e], 1)] ELSE vs[v]], k + 1)
At(x, k, d) == EvalFrom([vals EXCEPT ![x] = [@ EXCEPT ![k] = RAdd(@, d)]], 1)
TotalFd == M.rootfd.type = "fd" \/ (Ev.mode = "fd" /\ M.rootfd.type # "cs")
GradFd(q) ==
  LET x == Ev.wrt[q[1]] k == q[2] opt == IF "chk" \in DOMAIN Ev THEN M.rootchk ELSE M.rootfd h == FdStep(opt, vals[x][k])
      P == At(x, k, h) N == At(x, k, RNeg(h)) B == vals
  IN \A o \in Range(Ev.of) : \A e \in 1..M.vars[o].size :
       LET want == Quot(opt.form, h, N[o][e], B[o][e], P[o][e]) IN
       Chk(RClose(Ev.J[OfIx(o)][q[1]][e][k], want, Tol), Ev.cl,
           <<VarName(o), e, x, k, Ev.J[OfIx(o)][q[1]][e][k], want, Ev.mode>>)
Grad ==
  /\ Ev.e = "grad"
  /\ Chk(Ev.ok, IF Ev.cl = "C04:chain-rule" THEN "C04:gradient-failed" ELSE "C06:gradient-failed", Ev.err)
  /\ Chk(Ev.pure, "C06:value-changed", Ev.mode)
  /\ Chk(Ev.purein, "C06:input-changed", Ev.mode)
  /\ IF Ev.ok /\ Consistent
     THEN IF ~GradShape THEN Bad("C04:block-shape", Ev.mode)
          \* running a group with cyclic dependencies once does not give its derivative: nothing to compare with
          ELSE IF (M.rootfd.type # "user" \/ Ev.mode = "fd" \/ \E i \in 1..Len(M.subs) : M.subs[i].kind = "group" /\ M.subs[i].fd.type # "user")
                  /\ ~\A g \in AllGroups : Acyclic(M, w, g) THEN TRUE
          ELSE IF TotalFd THEN \A q \in ColW : GradFd(q)
          ELSE \A q \in ColW : \A o \in Range(Ev.of) : GradOut(o, q)
     ELSE TRUE
  /\ jac' = IF Ev.ok /\ GradShape THEN [of |-> Ev.of, wrt |-> Ev.wrt, J |-> Ev.J] ELSE jac
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, drv>>

(* ---- checks of derivatives ----
   Of every checked component the report holds, for each output and each connected input or state, the declared derivatives
   in both directions and the difference quotient, with respect to the value its source supplies. *)
Sync ==
  /\ Ev.e = "sync"
  /\ Chk(Ev.ok, "C01:run-failed", Ev.err)
  /\ Case.kind = "cyc" => \A o \in {x \in w.outs : Kind(M.vars[x].comp) # "indep"} :
       LET env == [v \in Range(InVars(M.vars[o].comp)) |-> InputVal(M, w, Ev.vals, v)] @@ (o :> Ev.vals[o])
           r == [j \in 1..Len(M.fn[o]) |-> PolyVal(env, M.fn[o][j], 1)]
       IN Chk(SeqClose(IF Implicit(M.vars[o].comp) THEN [j \in 1..Len(r) |-> RZero] ELSE Ev.vals[o], r, Tol),
              "C01:converged", <<VarName(o), Ev.vals[o], r>>)
  \* what was given stays what it was
  /\ Case.kind = "cyc" => \A v \in w.free \cup {o \in w.outs : Kind(M.vars[o].comp) = "indep"} :
       Chk(SeqClose(Ev.vals[v], vals[v], Tol), "C01:given-value", <<VarName(v), Ev.vals[v], vals[v]>>)
  /\ vals' = Ev.vals
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, stk, exed, jac, drv>>
ChkOpt(c, x) == LET f == FdOf(c) P == {i \in 1..Len(f.pp) : f.pp[i].v = x}
                IN IF P # {} THEN f.pp[CHOOSE i \in P : TRUE]
                   ELSE [k \in {"form", "step", "calc"} |-> IF k \in DOMAIN Ev.glob THEN Ev.glob[k] ELSE Sub(M, c).chk[k]]
SameOpts(c) == LET f == FdOf(c) k == Sub(M, c).chk
                   o == [n \in {"form", "step", "calc"} |-> IF n \in DOMAIN Ev.glob THEN Ev.glob[n] ELSE k[n]]
               IN f.type = k.type /\ f.form = o.form /\ f.step = o.step /\ f.calc = o.calc
Comps == {M.subs[i].path : i \in {j \in 1..Len(M.subs) : M.subs[j].kind \in {"comp", "mf", "impl"}}}
Asked == {c \in (IF Ev.comps = <<>> THEN Comps ELSE Range(Ev.comps)) : FdOf(c).type = "user" \/ ~SameOpts(c)}
Cols(c) == {x \in Range(InVars(c)) : w.src[x] # 0} \cup (IF Implicit(c) THEN Range(OutVars(c)) ELSE {})
Pairs(c) == Range(OutVars(c)) \X Cols(c)
Fac(x) == IF M.vars[x].io = "in" THEN ConvFac(M, w.src[x], x) ELSE ROne
At0(c) == [v \in Range(InVars(c)) |-> InputVal(M, w, Ev.vals, v)] @@ [v \in Range(OutVars(c)) |-> Ev.vals[v]]
Mat(o, x, D(_, _)) == [r \in 1..M.vars[o].size |-> [k \in 1..M.vars[x].size |-> RMul(Fac(x), D(r, k))]]
WantDecl(c, o, x, way) == LET env == At0(c) IN Mat(o, x, LAMBDA r, k : Declares(env, o, r, x, k, way))
WantQuot(c, o, x, opt) ==
  LET env == At0(c)
      step(k) == IF M.vars[x].io # "in" THEN FdStep(opt, Ev.vals[x][k])
                 ELSE RMul(ConvFac(M, w.src[x], x), FdStep(opt, Ev.vals[w.src[x]][w.idx[x][k] + 1]))
      f(r, k, d) == PolyVal([env EXCEPT ![x] = [@ EXCEPT ![k] = RAdd(@, d)]], M.fn[o][r], 1)
  IN Mat(o, x, LAMBDA r, k : Quot(opt.form, step(k), f(r, k, RNeg(step(k))), f(r, k, RZero), f(r, k, step(k))))
WantExact(c, o, x) == LET env == At0(c) IN Mat(o, x, LAMBDA r, k : PolyDer(env, M.fn[o][r], x, k, 1))
SameMat(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : SeqClose(a[r], b[r], Tol)
\* the error reported for two matrices: their distance (exact when one entry differs)
Diffs(a, b) == {<<r, k>> \in UNION {{<<r, k>> : k \in 1..Len(a[r])} : r \in 1..Len(a)} : ~RClose(a[r][k], b[r][k], Tol)}
DistOK(n, a, b) == LET D == Diffs(a, b) IN
                   IF D = {} THEN n = RZero
                   ELSE IF Cardinality(D) = 1 THEN LET d == CHOOSE d \in D : TRUE IN RClose(n, RAbs(RSub(a[d[1]][d[2]], b[d[1]][d[2]])), Tol)
                   ELSE n # RZero
Zeros(a) == [r \in 1..Len(a) |-> [k \in 1..Len(a[r]) |-> RZero]]
\* the pairs of matrices whose distances a report states, in order
Dists(p) == IF p.fd2 # <<>> THEN <<<<p.fd2, p.fd>>>>
            ELSE (IF p.fwd # <<>> THEN <<<<p.fwd, p.fd>>>> ELSE <<>>) \o (IF p.rev # <<>> THEN <<<<p.rev, p.fd>>>> ELSE <<>>)
                 \o (IF p.fwd # <<>> /\ p.rev # <<>> THEN <<<<p.fwd, p.rev>>>> ELSE <<>>)
ErrorsOK(p) ==
  /\ Chk(Len(p.abs) = Len(Dists(p)) /\ \A i \in 1..Len(p.abs) : DistOK(p.abs[i], Dists(p)[i][1], Dists(p)[i][2]), "C23:error", <<p.o, p.x, p.abs>>)
  /\ IF Diffs(p.fd, Zeros(p.fd)) = {} THEN TRUE
     ELSE Chk(Len(p.rel) = Len(Dists(p)) /\ \A i \in 1..Len(p.rel) : ~p.nan[i] /\ DistOK(p.rel[i], Dists(p)[i][1], Dists(p)[i][2]), "C23:relative-error", <<p.o, p.x, p.rel>>)
  /\ \A i \in 1..3 : LET a == <<p.fwd, p.rev, p.fd>>[i] IN
        Chk(IF a = <<>> THEN p.mag[i] = <<-1, 1>> ELSE DistOK(p.mag[i], a, Zeros(a)), "C23:magnitude", <<p.o, p.x, i, p.mag[i]>>)
PairOK(c, p) ==
  LET user == FdOf(c).type = "user"
      show(x) == <<VarName(p.o), VarName(p.x), x>>
      quot == IF Sub(M, c).chk.type = "cs" THEN WantExact(c, p.o, p.x) ELSE WantQuot(c, p.o, p.x, ChkOpt(c, p.x))
  IN /\ Chk(SameMat(p.fd, quot), "C23:quotient", show(<<p.fd, quot>>))
     /\ IF user THEN /\ Chk(SameMat(p.fwd, WantDecl(c, p.o, p.x, "fwd")), "C23:forward", show(p.fwd))
                     /\ Chk(SameMat(p.rev, WantDecl(c, p.o, p.x, "rev")), "C23:reverse", show(p.rev))
        ELSE Chk(SameMat(p.fd2, IF FdOf(c).type = "cs" THEN WantExact(c, p.o, p.x) ELSE WantQuot(c, p.o, p.x, FdOpt(c, p.x))), "C23:own-quotient", show(p.fd2))
     /\ ErrorsOK(p)
ChkP ==
  /\ Ev.e = "chkp"
  /\ Chk(Ev.ok, "C23:failed", Ev.err)
  /\ Chk(Ev.pure \/ ~Ev.ran, "C23:value-changed", <<>>)
  /\ Chk(Ev.purein \/ ~Ev.ran, "C23:input-changed", <<>>)
  /\ Ev.ok =>
       /\ Chk({c \in Asked : Pairs(c) # {}} \subseteq {Ev.rep[i].c : i \in 1..Len(Ev.rep)} /\ {Ev.rep[i].c : i \in 1..Len(Ev.rep)} \subseteq Asked,
              "C23:components", <<{Ev.rep[i].c : i \in 1..Len(Ev.rep)}, Asked>>)
       /\ \A i \in 1..Len(Ev.rep) : LET t == Ev.rep[i] IN
            IF t.c \notin Asked THEN TRUE
            ELSE IF {<<t.pairs[k].o, t.pairs[k].x>> : k \in 1..Len(t.pairs)} # Pairs(t.c)
                 THEN Bad("C23:pairs", <<t.c, {<<t.pairs[k].o, t.pairs[k].x>> : k \in 1..Len(t.pairs)}, Pairs(t.c)>>)
                 ELSE \A k \in 1..Len(t.pairs) : PairOK(t.c, t.pairs[k])
  /\ vals' = Ev.vals
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, stk, exed, jac, drv>>
\* of the whole model: the three answers are judged as gradients of the same point (events that follow)
ChkT ==
  /\ Ev.e = "chkt"
  /\ Chk(Ev.ok, "C23:failed", Ev.err)
  /\ Chk(Ev.pure \/ ~Ev.ran, "C23:value-changed", <<>>)
  \* finite differencing a whole model leaves the inputs of its components perturbed (known finding)
  /\ Case.key = "total-check" => Chk(Ev.purein \/ ~Ev.ran, "C23:input-changed", <<>>)
  /\ Ev.ok => /\ \A k \in 1..Len(Ev.rep[1].pairs) : ErrorsOK(Ev.rep[1].pairs[k])
              /\ Chk({<<Ev.rep[1].pairs[k].o, Ev.rep[1].pairs[k].x>> : k \in 1..Len(Ev.rep[1].pairs)}
                     = (IF M.decl.fns # <<>> THEN {M.decl.fns[i][1] : i \in 1..Len(M.decl.fns)}
                        ELSE {v \in w.outs : Kind(M.vars[v].comp) # "indep"})
                       \X (IF M.decl.dvs # <<>> THEN Range(M.decl.dvs)
                           ELSE {v \in w.outs : Kind(M.vars[v].comp) = "indep" /\ \E t \in w.ins : w.src[t] = v}),
                     "C23:total-pairs", <<>>)
  /\ vals' = Ev.vals
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, stk, exed, jac, drv>>

(* ---- lifecycle: refused operations, failing components, directories ---- *)
Refuse == /\ Ev.e = "refuse"
          /\ Chk(Ev.refused, "C16:not-refused", Ev.what)
          /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, jac, drv>>
(* ---- a part of the model wrapped as a component: what the part computes itself cannot be given to it ---- *)
RECURSIVE Within(_, _)
Within(p, g) == p = g \/ (p # "" /\ Within(Sub(M, p).parent, g))
Expose ==
  /\ Ev.e = "expose"
  /\ LET ww == Wire(M)
         in(v, g) == Within(M.vars[v].comp, g)
         computed == \/ Ev.v = 0
                     \/ M.vars[Ev.v].io = "in" /\ ww.src[Ev.v] # 0 /\ in(ww.src[Ev.v], Ev.w)
                     \/ M.vars[Ev.v].io # "in" /\ (Kind(M.vars[Ev.v].comp) # "indep"
                           \* independent in a part within the part
                           \/ \E i \in DOMAIN Ev.inner : Within(Ev.inner[i], Ev.w) /\ in(Ev.v, Ev.inner[i]))
     IN Chk(computed => ~Ev.ok, "C21:accepted-computed", <<Ev.w, Ev.n>>)
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, jac, drv>>
Given(v) == v \in w.free \/ (v \in w.outs /\ Kind(M.vars[v].comp) = "indep")
Fail ==
  /\ Ev.e = "fail"
  /\ Chk(IF Ev.fired THEN Ev.raised = Ev.exc ELSE Ev.raised = "", IF Ev.fired THEN "C16:error-lost" ELSE "C16:operation-failed",
         <<Ev.op, Ev.exc, Ev.raised>>)
  /\ \A v \in DOMAIN vals : Given(v) => Chk(SeqClose(Ev.vals[v], vals[v], Tol), "C16:value-corrupted", <<Ev.op, VarName(v), Ev.vals[v], vals[v]>>)
  /\ vals' = [v \in DOMAIN vals |-> IF v \in w.outs \cup w.free THEN Ev.vals[v] ELSE vals[v]]
  /\ stk' = <<>> /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, exed, jac, drv>>
\* the directory of a system: its own, relative to that of the group that holds it, or else the one of that group
RECURSIVE DirOf(_)
DirOf(p) == LET d == IF p = "" THEN M.rootdir ELSE Sub(M, p).dir
                up == IF p = "" THEN <<>> ELSE DirOf(Sub(M, p).parent)
            IN IF ~d.has THEN up ELSE IF d.abs THEN d.d ELSE up \o d.d
Dirs ==
  /\ Ev.e = "dirs"
  /\ Chk(Ev.cwd = <<>>, "C16:working-directory", Ev.cwd)
  /\ \A i \in 1..Len(Ev.l) : Chk(Ev.l[i][3] = DirOf(Ev.l[i][1]), "C16:component-directory", Ev.l[i])
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, jac, drv>>

(* ---- requests for parts of the total derivatives ----
   drv holds what the driver of the second problem declares: entries (0-based) and scalers of each design variable
   and response.  A request names outputs and inputs; the answer must be the blocks of jac, restricted and scaled. *)
DvOf(v)  == {i \in 1..Len(drv.dvs) : drv.dvs[i].v = v}
FnOf(v)  == {i \in 1..Len(drv.fns) : drv.fns[i].v = v}
DvIdx(v) == IF Ev.on = "drv" /\ DvOf(v) # {} /\ drv.dvs[CHOOSE i \in DvOf(v) : TRUE].has
            THEN drv.dvs[CHOOSE i \in DvOf(v) : TRUE].idx ELSE Iota(M.vars[v].size)
FnIdx(v) == IF Ev.on = "drv" /\ FnOf(v) # {} /\ drv.fns[CHOOSE i \in FnOf(v) : TRUE].has
            THEN drv.fns[CHOOSE i \in FnOf(v) : TRUE].idx ELSE Iota(M.vars[v].size)
Entry(s, k) == IF Len(s) = 0 THEN ROne ELSE IF Len(s) = 1 THEN s[1] ELSE s[k]
DvSc(v, c) == IF Ev.via = "driver" /\ DvOf(v) # {} THEN Entry(drv.dvs[CHOOSE i \in DvOf(v) : TRUE].scaler, c) ELSE ROne
FnSc(v, r) == IF Ev.via = "driver" /\ FnOf(v) # {} THEN Entry(drv.fns[CHOOSE i \in FnOf(v) : TRUE].scaler, r) ELSE ROne
\* entry (k, l), 1-based, of the full block
JFull(o, k, x, l) ==
  IF o \in Range(jac.wrt) THEN (IF o = x /\ k = l THEN ROne ELSE RZero)
  ELSE jac.J[CHOOSE i \in 1..Len(jac.of) : jac.of[i] = o][CHOOSE j \in 1..Len(jac.wrt) : jac.wrt[j] = x][k][l]
Block(o, x) == [r \in 1..Len(FnIdx(o)) |-> [c \in 1..Len(DvIdx(x)) |->
                  RDiv(RMul(JFull(o, FnIdx(o)[r] + 1, x, DvIdx(x)[c] + 1), FnSc(o, r)), DvSc(x, c))]]
Inactive(o, r) == \E i \in 1..Len(Ev.inact) : Ev.inact[i][1] = o /\ (r - 1) \in Range(Ev.inact[i][2])
Declared(o, x) == Ev.sparsity = <<>> \/ Ev.fmt # "dict" \/
                  \E i \in 1..Len(Ev.sparsity) : Ev.sparsity[i][1] = o /\ x \in Range(Ev.sparsity[i][2])
RowOK(o, r, got, want) == SeqClose(got, want, Tol) \/
                          (Inactive(o, r) /\ SeqClose(got, [c \in 1..Len(want) |-> RZero], Tol))
BlockOK(o, x, b) == LET want == Block(o, x) IN
                    /\ Len(b) = Len(want)
                    /\ \A r \in 1..Len(b) : Len(b[r]) = Len(want[r]) /\ RowOK(o, r, b[r], want[r])
Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
DictOK ==
  /\ Chk(Ev.keys = Ev.of, "C05:keys", <<Ev.keys, Ev.of>>)
  /\ \A i \in 1..Len(Ev.of) :
       Ev.keys # Ev.of \/
       LET o == Ev.of[i] ik == Ev.ikeys[i]
           need == SelectSeq(Ev.wrt, LAMBDA x : Declared(o, x))
       IN /\ Chk(SelectSeq(ik, LAMBDA x : Declared(o, x)) = need /\ Range(ik) \subseteq Range(Ev.wrt), "C05:keys", <<o, ik>>)
          /\ \A j \in 1..Len(ik) : IF ik[j] \in Range(Ev.wrt) /\ Declared(o, ik[j])
                THEN Chk(BlockOK(o, ik[j], Ev.J[i][j]), Ev.clause,
                         <<VarName(o), VarName(ik[j]), Ev.J[i][j], Block(o, ik[j]), Ev.mode, Ev.via>>) ELSE TRUE
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
ArrayOK ==
  LET rows == Flat([i \in 1..Len(Ev.of) |-> [r \in 1..Len(FnIdx(Ev.of[i])) |-> <<Ev.of[i], r>>]])
      want(o, r) == Flat([j \in 1..Len(Ev.wrt) |-> Block(o, Ev.wrt[j])[r]])
  IN IF Len(Ev.J) # Len(rows) THEN Bad("C05:array-shape", <<Len(Ev.J), Len(rows)>>)
     ELSE \A k \in 1..Len(rows) :
            Chk(RowOK(rows[k][1], rows[k][2], Ev.J[k], want(rows[k][1], rows[k][2])), Ev.clause,
                <<VarName(rows[k][1]), rows[k][2], Ev.J[k], want(rows[k][1], rows[k][2]), Ev.mode, Ev.via>>)
Sub_ ==
  /\ Ev.e = "sub"
  /\ Chk(Ev.ok, IF Ev.clause = "C05:block" THEN "C05:request-failed" ELSE Ev.clause, Ev.err)
  /\ Chk(Ev.pure, "C06:value-changed", Ev.mode)
  \* one pass over groups with cyclic dependencies does not give the total derivative: nothing to compare with
  /\ IF Ev.ok /\ Consistent /\ jac # NoJac /\ (Ev.on = "drv" => drv.same)
        /\ (Ev.mode = "fd" => \A g \in AllGroups : Acyclic(M, w, g)) THEN (IF Ev.fmt = "dict" THEN DictOK ELSE ArrayOK) ELSE TRUE
  /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, jac, drv>>
Drv ==
  /\ Ev.e = "drv"
  /\ Chk(Ev.ok, "C05:driver-setup-failed", Ev.err)
  /\ drv' = [dvs |-> Ev.dvs, fns |-> Ev.fns,
             same |-> Ev.ok /\ \A v \in w.outs : SeqClose(Ev.vals[v], vals[v], Tol)]
  /\ ei' = (IF Ev.ok THEN ei + 1 ELSE Len(Case.ev) + 1) /\ UNCHANGED <<ci, w, vals, stk, exed, jac>>

Ran ==
  /\ Ev.e = "ran"
  /\ Chk(Ev.ok, "C01:run-failed", Ev.err)
  /\ IF Ev.ok THEN Chk(stk = <<>>, "C03:unfinished-groups", <<>>)
                   /\ Chk(exed = {M.subs[i].path : i \in {j \in 1..Len(M.subs) : M.subs[j].kind \notin {"group", "indep"}}},
                          "C03:not-every-component", exed)
              ELSE TRUE
  /\ stk' = <<>> /\ ei' = ei + 1 /\ UNCHANGED <<ci, w, vals, exed, jac, drv>>

NextCase ==
  /\ ei > Len(Case.ev)
  /\ ci < Len(Cases)
  /\ ci' = ci + 1 /\ ei' = 1 /\ w' = NoWire /\ vals' = InitVals(ci + 1) /\ stk' = <<>> /\ exed' = {}
  /\ jac' = NoJac /\ drv' = NoDrv

Crash == /\ ei = 1 /\ Case.outcome # "done" /\ Bad("C01:no-outcome", Case.outcome)
         /\ ei' = Len(Case.ev) + 1 /\ UNCHANGED <<ci, w, vals, stk, exed, jac, drv>>

Next == IF ei > Len(Case.ev) THEN NextCase
        ELSE IF ei = 1 /\ Case.outcome # "done" THEN Crash
        ELSE \/ Setup \/ Read \/ Set \/ Begin \/ Enter \/ Exit \/ Exec \/ Ran \/ Grad \/ Sub_ \/ Drv \/ Sync \/ ChkP \/ ChkT \/ Refuse \/ Expose \/ Fail \/ Dirs

Spec == Init /\ [][Next]_vars
\* every line of the trace was consumed: the last case was reached and its last event processed
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
