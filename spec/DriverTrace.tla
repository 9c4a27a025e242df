----------------------------- MODULE DriverTrace -----------------------------
(* Histories of real drivers (values set and read, optimizers run) judged against Driver. *)
EXTENDS Driver, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, u, y
vars == <<ci, ei, u, y>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Ys(s) == [r \in 1..Len(Case.resp) |-> Resp(s, Case.resp[r])]
Init == ci = 1 /\ ei = 1 /\ u = Cases[1].u0 /\ y = Cases[1].y0
MatREq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SeqREq(a[i], b[i])
BEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].h = b[i].h /\ (a[i].h => REq(a[i].b, b[i].b))
RView(d) == [i \in 1..Len(d.idx) |-> Drv(y[d.v][d.idx[i]], d.add[i], d.sc[i])]
Get == /\ Chk(MatREq(Ev.src, u), "C13:frame", <<Ev.src, u>>)
       /\ Chk(MatREq(Ev.resp, y), "C13:frame", <<Ev.resp, y>>)
       /\ \A n \in 1..Len(Case.dvs) :
            /\ Chk(SeqREq(Ev.dv[n], View(u[Case.dvs[n].v], Case.dvs[n])), "C13:desvar", <<n, Ev.dv[n], View(u[Case.dvs[n].v], Case.dvs[n])>>)
            /\ Chk(BEq(Ev.dlo[n], Lower(Case.dvs[n])) /\ BEq(Ev.dup[n], Upper(Case.dvs[n])), "C13:desvar-bounds", <<n, Ev.dlo[n], Ev.dup[n]>>)
       /\ \A n \in 1..Len(Case.objs) : Chk(SeqREq(Ev.obj[n], RView(Case.objs[n])), "C13:objective", <<n, Ev.obj[n], RView(Case.objs[n])>>)
       /\ \A n \in 1..Len(Case.cons) :
            /\ Chk(SeqREq(Ev.con[n], RView(Case.cons[n])), "C13:constraint", <<n, Ev.con[n], RView(Case.cons[n])>>)
            /\ Chk(BEq(Ev.clo[n], Lower(Case.cons[n])) /\ BEq(Ev.cup[n], Upper(Case.cons[n])) /\ BEq(Ev.ceq[n], Equals(Case.cons[n])),
                   "C13:constraint-bounds", <<n, Ev.clo[n], Ev.cup[n], Ev.ceq[n]>>)
\* ---- scipy style callbacks
Want(s) == Sides(s, Case.resp, Case.dvs, Case.cons)
\* an equality may be given with either sign
FirstSign(q) == LET I == {i \in 1..Len(q) : q[i][1] # 0} IN IF I = {} THEN 1 ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN q[i][1]
Canon(e, wg) == LET q == <<e.f>> \o (IF wg THEN e.g ELSE <<>>) IN <<e.t, IF e.t = "eq" /\ FirstSign(q) < 0 THEN NegS(q) ELSE q>>
BagEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
ConsJudge(s) ==
  LET w == [i \in 1..Len(Want(s)) |-> Canon(Want(s)[i], Ev.wg)]
      o == [i \in 1..Len(Ev.c) |-> Canon(Ev.c[i], Ev.wg)]
  IN Chk(BagEq(o, w), IF Ev.wg THEN "C14:constraint-gradients" ELSE "C14:constraints", <<Ev.x, Ev.c, Want(s)>>)
Con1Judge(s) == Chk(\E i \in 1..Len(Want(s)) : Canon(Want(s)[i], Ev.wg) = Canon(Ev.c[1], Ev.wg), "C14:constraints", <<Ev.x, Ev.c, Want(s)>>)
FunJudge(s) == Chk(REq(Ev.f, Val(s, Case.resp, Case.objs[1], 1)), "C14:objective", <<Ev.x, Ev.f, Val(s, Case.resp, Case.objs[1], 1)>>)
JacJudge(s) == Chk(SeqREq(Ev.g, Grad(s, Case.resp, Case.dvs, Case.objs[1], 1)), "C14:gradient", <<Ev.x, Ev.g, Grad(s, Case.resp, Case.dvs, Case.objs[1], 1)>>)
AllB(F(_)) == CatAll([n \in 1..Len(Case.dvs) |-> F(Case.dvs[n])])
BeginJudge == /\ Chk(SeqREq(Ev.x0, X(u, Case.dvs)), "C14:start", <<Ev.x0, X(u, Case.dvs)>>)
              /\ (Ev.hasb \/ Ev.needb) => Chk(BEq(Ev.lo, AllB(Lower)) /\ BEq(Ev.up, AllB(Upper)), "C14:bounds", <<Ev.lo, Ev.up>>)
\* ---- pyoptsparse style callbacks
Eq0(d) == \E i \in 1..Len(d.idx) : d.eq[i].h
PBegin == /\ BeginJudge
          /\ \A n \in 1..Len(Case.cons) :
               LET d == Case.cons[n] IN
               /\ Chk(BEq(Ev.clo[n], IF Eq0(d) THEN Equals(d) ELSE Lower(d)) /\ BEq(Ev.cup[n], IF Eq0(d) THEN Equals(d) ELSE Upper(d)), "C14:constraints", <<n, Ev.clo[n], Ev.cup[n]>>)
               /\ d.lin => \A i \in 1..Len(d.idx) : Chk(SeqREq(Ev.lj[n][i], Grad(u, Case.resp, Case.dvs, d, i)), "C14:constraint-gradients", <<n, Ev.lj[n]>>)
Vals(s, d) == [i \in 1..Len(d.idx) |-> Val(s, Case.resp, d, i)]
PFun(s) == /\ \A n \in 1..Len(Case.objs) : Chk(SeqREq(Ev.o[n], Vals(s, Case.objs[n])), "C14:objective", <<Ev.x, n, Ev.o[n], Vals(s, Case.objs[n])>>)
           /\ \A n \in 1..Len(Case.cons) : ~Case.cons[n].lin => Chk(SeqREq(Ev.c[n], Vals(s, Case.cons[n])), "C14:constraints", <<Ev.x, n, Ev.c[n], Vals(s, Case.cons[n])>>)
Near(a, b, t) == b.h /\ RLe(RAbs(RSub(a, b.b)), t)
Inactive(s, d, i) == /\ Ev.act /\ d.tol.h
                     /\ ~Near(Val(s, Case.resp, d, i), Lower(d)[i], d.tol.b)
                     /\ ~Near(Val(s, Case.resp, d, i), Upper(d)[i], d.tol.b)
                     /\ ~d.eq[i].h
                     /\ DrvWithin(Resp(s, Case.resp[d.v]), d, i)
Zero(g) == \A k \in 1..Len(g) : g[k][1] = 0
PSens(s) == /\ \A n \in 1..Len(Case.objs) : \A i \in 1..Len(Case.objs[n].idx) :
                 Chk(SeqREq(Ev.o[n][i], Grad(s, Case.resp, Case.dvs, Case.objs[n], i)), "C14:gradient", <<Ev.x, n, Ev.o[n], Grad(s, Case.resp, Case.dvs, Case.objs[n], i)>>)
            /\ \A n \in 1..Len(Case.cons) : \A i \in 1..Len(Case.cons[n].idx) :
                 ~Case.cons[n].lin => Chk(SeqREq(Ev.c[n][i], Grad(s, Case.resp, Case.dvs, Case.cons[n], i)) \/ (Inactive(s, Case.cons[n], i) /\ Zero(Ev.c[n][i])),
                                          "C14:constraint-gradients", <<Ev.x, n, Ev.c[n], Grad(s, Case.resp, Case.dvs, Case.cons[n], i)>>)
At(x) == PutX(u, Case.dvs, x)
EndJudge(s) == /\ Chk(MatREq(Ev.src, s) /\ MatREq(Ev.resp, Ys(s)), "C14:left-at-best", <<Ev.best, Ev.src, s>>)
               /\ Chk(Ev.flag = Ev.success, "C14:success", <<Ev.flag, Ev.success>>)
Act == IF Case.outcome # "done" THEN Bad(IF Case.opt THEN "C14:no-outcome" ELSE "C13:no-outcome", Case.outcome) /\ UNCHANGED <<u, y>> /\ ei' = Len(Case.ev) + 1
       ELSE /\ CASE Ev.op = "assign" -> u' = [u EXCEPT ![Ev.v] = Ev.w] /\ UNCHANGED y
                 [] Ev.op = "run"    -> UNCHANGED u /\ y' = Ys(u)
                 [] Ev.op = "set"    -> u' = [u EXCEPT ![Case.dvs[Ev.n].v] = Put(@, Case.dvs[Ev.n], Ev.p)] /\ UNCHANGED y
                 [] Ev.op = "seti"   -> LET d == Case.dvs[Ev.n]
                                            q == [d EXCEPT !.idx = <<Ev.k>>, !.add = <<d.add[Ev.k]>>, !.sc = <<d.sc[Ev.k]>>]
                                        IN u' = [u EXCEPT ![d.v] = Put(@, q, <<Ev.p>>)] /\ UNCHANGED y
                 [] Ev.op = "get"    -> Get /\ UNCHANGED <<u, y>>
                 [] Ev.op = "begin"  -> BeginJudge /\ UNCHANGED u /\ y' = Ys(u)
                 [] Ev.op = "fun"    -> u' = At(Ev.x) /\ y' = Ys(u') /\ FunJudge(u')
                 [] Ev.op = "cons"   -> ConsJudge(At(Ev.x)) /\ UNCHANGED <<u, y>>
                 [] Ev.op = "con1"   -> Con1Judge(At(Ev.x)) /\ UNCHANGED <<u, y>>
                 [] Ev.op = "jac"    -> JacJudge(At(Ev.x)) /\ UNCHANGED <<u, y>>
                 [] Ev.op = "pbegin" -> PBegin /\ UNCHANGED u /\ y' = Ys(u)
                 [] Ev.op = "pfun"   -> u' = At(Ev.x) /\ y' = Ys(u') /\ PFun(u')
                 [] Ev.op = "psens"  -> PSens(At(Ev.x)) /\ UNCHANGED <<u, y>>
                 [] Ev.op = "end"    -> u' = At(Ev.best) /\ y' = Ys(u') /\ EndJudge(u')
            /\ ei' = ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ u' = Cases[ci + 1].u0 /\ y' = Cases[ci + 1].y0
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View_ == <<ci, ei>>
=============================================================================
