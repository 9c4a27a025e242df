-------------------------------- MODULE Driver --------------------------------
(* The driver's view of a model: declared entries of variables, shifted and scaled, their bounds, the functions and
   gradients an optimizer is given, and the point left behind.
   A model is [u |-> source variables (flat sequences of rationals), resp |-> responses (sequences of polynomials)].
   A declaration is [v, idx, add, sc] with one shift and one non-zero scale per declared entry; bounds are sequences of
   [h |-> is there one, b |-> value in model units]. *)
EXTENDS Rat, FiniteSets, TLC
Drv(x, a, s) == RMul(RAdd(x, a), s)
Mod(p, a, s) == RSub(RDiv(p, s), a)
\* values of the declared entries of variable value w, in driver units
View(w, d) == [i \in 1..Len(d.idx) |-> Drv(w[d.idx[i]], d.add[i], d.sc[i])]
\* the variable value after the driver values p were set
Put(w, d, p) == [k \in 1..Len(w) |-> IF \E i \in 1..Len(d.idx) : d.idx[i] = k
                                     THEN LET i == CHOOSE i \in 1..Len(d.idx) : d.idx[i] = k IN Mod(p[i], d.add[i], d.sc[i])
                                     ELSE w[k]]
\* bounds in driver units: those of the model values, exchanged where the scale is negative
DrvB(b, a, s) == [h |-> b.h, b |-> IF b.h THEN Drv(b.b, a, s) ELSE RZero]
Lower(d) == [i \in 1..Len(d.idx) |-> IF d.sc[i][1] > 0 THEN DrvB(d.lo[i], d.add[i], d.sc[i]) ELSE DrvB(d.up[i], d.add[i], d.sc[i])]
Upper(d) == [i \in 1..Len(d.idx) |-> IF d.sc[i][1] > 0 THEN DrvB(d.up[i], d.add[i], d.sc[i]) ELSE DrvB(d.lo[i], d.add[i], d.sc[i])]
Equals(d) == [i \in 1..Len(d.idx) |-> DrvB(d.eq[i], d.add[i], d.sc[i])]
\* ---- responses: an entry is a sequence of terms [c, v |-> sequence of <<source, entry>>]
RECURSIVE Mul(_, _)
Mul(u, vs) == IF vs = <<>> THEN ROne ELSE RMul(u[Head(vs)[1]][Head(vs)[2]], Mul(u, Tail(vs)))
Poly(u, ts) == RSum([t \in 1..Len(ts) |-> RMul(ts[t].c, Mul(u, ts[t].v))])
Drop(vs, q) == SubSeq(vs, 1, q - 1) \o SubSeq(vs, q + 1, Len(vs))
DTerm(u, t, v, k) == RSum([q \in 1..Len(t.v) |-> IF t.v[q] = <<v, k>> THEN RMul(t.c, Mul(u, Drop(t.v, q))) ELSE RZero])
DPoly(u, ts, v, k) == RSum([t \in 1..Len(ts) |-> DTerm(u, ts[t], v, k)])
Resp(u, r) == [j \in 1..Len(r) |-> Poly(u, r[j])]
\* ---- the optimizer's problem at source values u
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
X(u, dvs) == CatAll([n \in 1..Len(dvs) |-> View(u[dvs[n].v], dvs[n])])
Off(dvs, n) == IF n = 1 THEN 0 ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Len(dvs[k].idx) + S(k - 1) IN S(n - 1)
RECURSIVE PutFrom(_, _, _, _)
PutFrom(u, dvs, x, n) == IF n > Len(dvs) THEN u
  ELSE PutFrom([u EXCEPT ![dvs[n].v] = Put(@, dvs[n], SubSeq(x, Off(dvs, n) + 1, Off(dvs, n) + Len(dvs[n].idx)))], dvs, x, n + 1)
PutX(u, dvs, x) == PutFrom(u, dvs, x, 1)
Val(u, resp, d, i) == Drv(Poly(u, resp[d.v][d.idx[i]]), d.add[i], d.sc[i])
Grad(u, resp, dvs, d, i) == CatAll([n \in 1..Len(dvs) |-> [k \in 1..Len(dvs[n].idx) |->
                               RMul(RMul(DPoly(u, resp[d.v][d.idx[i]], dvs[n].v, dvs[n].idx[k]), d.sc[i]), RInv(dvs[n].sc[k]))]])
NegS(s) == [i \in 1..Len(s) |-> RNeg(s[i])]
\* the active sides of a constraint: <<type, value, gradient>>, feasible when not negative (or zero)
EntrySides(u, resp, dvs, d, i) ==
  LET f == Val(u, resp, d, i)  g == Grad(u, resp, dvs, d, i)
  IN (IF Equals(d)[i].h THEN <<[t |-> "eq", f |-> RSub(Equals(d)[i].b, f), g |-> NegS(g)]>> ELSE <<>>)
     \o (IF Lower(d)[i].h THEN <<[t |-> "ineq", f |-> RSub(f, Lower(d)[i].b), g |-> g]>> ELSE <<>>)
     \o (IF Upper(d)[i].h THEN <<[t |-> "ineq", f |-> RSub(Upper(d)[i].b, f), g |-> NegS(g)]>> ELSE <<>>)
Sides(u, resp, dvs, cons) == CatAll([n \in 1..Len(cons) |-> CatAll([i \in 1..Len(cons[n].idx) |-> EntrySides(u, resp, dvs, cons[n], i)])])
\* whether entry i of variable value w is within its declared bounds
Within(w, d, i) == /\ d.lo[i].h => RLe(d.lo[i].b, w[d.idx[i]])
                   /\ d.up[i].h => RLe(w[d.idx[i]], d.up[i].b)
DrvWithin(w, d, i) == /\ Lower(d)[i].h => RLe(Lower(d)[i].b, View(w, d)[i])
                      /\ Upper(d)[i].h => RLe(View(w, d)[i], Upper(d)[i].b)
=============================================================================
