------------------------------ MODULE ModelSys ------------------------------
(* Static semantics of a model declaration: promoted names, explicit and implicit connections, the verdict
   (well-formed or not, and why) and the resolved wiring.  A model m is a record
     subs  : sequence of [path, name, parent, kind, prom]     (the root is the path "")
     vars  : sequence of [comp, name, io, sc, sized, shape, size, fam, f, o, val]
     conns : sequence of [grp, src, tgts, idx, has]
   Everything below is a function of the declaration alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

Range(s) == {s[i] : i \in 1..Len(s)}

\* shell-style pattern matching on strings ('*' and '?'), the whole name must match
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET c == SubSeq(p, i, i) IN
       IF c = "*" THEN Glob(p, i + 1, s, j) \/ (j <= Len(s) /\ Glob(p, i, s, j + 1))
       ELSE j <= Len(s) /\ (c = "?" \/ c = SubSeq(s, j, j)) /\ Glob(p, i + 1, s, j + 1)
Matches(pat, name) == pat = name \/ Glob(pat, 1, name, 1)

SubIx(m, p) == CHOOSE i \in 1..Len(m.subs) : m.subs[i].path = p
Sub(m, p) == m.subs[SubIx(m, p)]

\* the name a variable is known by inside each system that contains it
RECURSIVE NamesUp(_, _, _)
NamesUp(m, p, n) ==
  IF p = "" THEN ("" :> n)
  ELSE LET s == Sub(m, p)
           q == IF \E k \in 1..Len(s.prom) : Matches(s.prom[k], n) THEN n ELSE s.name \o "." \o n
       IN (p :> n) @@ NamesUp(m, s.parent, q)

IsIn(x) == x.io = "in"

Iota(n) == [k \in 1..n |-> k - 1]
\* entries idx2 of the entries idx1 of a source
Compose(has1, i1, has2, i2) ==
  IF ~has1 THEN i2 ELSE IF ~has2 THEN i1
  ELSE [k \in 1..Len(i2) |-> IF i2[k] >= 0 /\ i2[k] < Len(i1) THEN i1[i2[k] + 1] ELSE -1]

\* least fixed point of a monotone operator on sets, iterated at most n times
RECURSIVE SrcFix(_, _, _, _)
SrcFix(S, share, idxe, n) ==
  LET S2 == [t \in DOMAIN S |->
               S[t] \cup UNION {S[e[1]] : e \in {x \in share : x[2] = t}}
                    \cup {<<x[1], TRUE, Compose(x[2], x[3], TRUE, ie.idx)>> :
                             x \in UNION {S[ie.s] : ie \in {y \in idxe : y.t = t}},
                             ie \in {y \in idxe : y.t = t}}]
  IN IF n = 0 \/ S2 = S THEN S ELSE SrcFix(S2, share, idxe, n - 1)

RECURSIVE Reach(_, _, _)
Reach(S, E, n) == LET S2 == S \cup {e[2] : e \in {x \in E : x[1] \in S}}
                  IN IF n = 0 \/ S2 = S THEN S ELSE Reach(S2, E, n - 1)

Wire(m) ==
  LET
    V    == 1..Len(m.vars)
    NM   == [v \in V |-> NamesUp(m, m.vars[v].comp, m.vars[v].name)]
    Ins  == {v \in V : IsIn(m.vars[v])}
    Outs == V \ Ins
    Root == [v \in V |-> NM[v][""]]
    In(g)  == {v \in Ins : g \in DOMAIN NM[v]}
    Out(g) == {v \in Outs : g \in DOMAIN NM[v]}
    OutN(g, n) == {v \in Out(g) : NM[v][g] = n}
    InN(g, n)  == {v \in In(g) : NM[v][g] = n}
    \* --- declarations that are wrong by themselves
    badprom == \E i \in 1..Len(m.subs) : \E k \in 1..Len(m.subs[i].prom) :
                 ~\E v \in V : m.subs[i].path \in DOMAIN NM[v] /\ Matches(m.subs[i].prom[k], NM[v][m.subs[i].path])
    dupout == \E u, w \in Outs : u # w /\ \E g \in DOMAIN NM[u] \cap DOMAIN NM[w] :
                 /\ NM[u][g] = NM[w][g]
    C == 1..Len(m.conns)
    SrcOf(c) == LET o == OutN(m.conns[c].grp, m.conns[c].src) IN
                IF o # {} THEN o ELSE InN(m.conns[c].grp, m.conns[c].src)
    badconn == \E c \in C : SrcOf(c) = {} \/ \E k \in 1..Len(m.conns[c].tgts) :
                 InN(m.conns[c].grp, m.conns[c].tgts[k]) = {}
    \* --- edges <<source var, target input, has indices, indices>>
    expl == UNION {UNION {{[s |-> s, t |-> t, has |-> m.conns[c].has, idx |-> m.conns[c].idx] :
                     s \in SrcOf(c), t \in InN(m.conns[c].grp, m.conns[c].tgts[k])} :
                     k \in 1..Len(m.conns[c].tgts)} : c \in C}
    impl == UNION {{[s |-> u, t |-> t, has |-> FALSE, idx |-> <<>>] :
                     u \in {x \in Outs : Root[x] = Root[t]}} : t \in Ins}
    edges == expl \cup impl
    direct == [t \in Ins |-> {<<e.s, e.has, e.idx>> : e \in {x \in edges : x.t = t /\ x.s \in Outs}}]
    inin  == {e \in expl : e.s \in Ins}
    selfe == \E e \in inin : e.s = e.t
    \* inputs promoted to one name that no output carries are one variable
    star  == {p \in Ins \X Ins : p[1] # p[2] /\ Root[p[1]] = Root[p[2]] /\
                               ~\E u \in Outs : Root[u] = Root[p[1]]}
    dshare == {<<e.s, e.t>> : e \in {x \in inin : ~x.has}}
    share == dshare \cup {<<p[2], p[1]>> : p \in dshare} \cup star
    idxe  == {e \in inin : e.has}
    n     == Cardinality(Ins) + 1
    S     == SrcFix(direct, share, idxe, n)
    SD    == SrcFix(direct, dshare, idxe, n)        \* along the stated directions only
    us(X, t) == {x[1] : x \in X[t]}
    multi == \E t \in Ins : Cardinality(us(SD, t)) > 1
    amb0  == \/ \E t \in Ins : Cardinality(us(S, t)) > 1
             \/ \E t \in Ins : Cardinality(S[t]) > 1
             \/ \E e \in idxe : S[e.s] = {}
             \/ \E e, f \in expl : e.s = f.s /\ e.t = f.t /\ (e.has # f.has \/ e.idx # f.idx)
             \/ \E e \in expl : e.has /\ e.idx = <<>>
             \/ selfe
             \/ \E t \in Ins : Cardinality(S[t]) = 1 /\ ~m.vars[t].sized /\
                  LET x == CHOOSE x \in S[t] : TRUE IN x[2] /\ m.vars[x[1]].sc
    clean == {t \in Ins : Cardinality(S[t]) = 1}
    src   == [v \in V |-> IF v \in clean THEN (CHOOSE x \in S[v] : TRUE)[1] ELSE 0]
    has   == [v \in V |-> IF v \in clean THEN (CHOOSE x \in S[v] : TRUE)[2] ELSE FALSE]
    idx   == [v \in V |-> IF v \notin clean THEN <<>>
                          ELSE LET x == CHOOSE x \in S[v] : TRUE IN
                               IF x[2] THEN x[3] ELSE Iota(m.vars[x[1]].size)]
    badtype == \E t \in clean : m.vars[t].sized /\
                 /\ m.vars[t].sc # m.vars[src[t]].sc
                 /\ ~(has[t] /\ Len(idx[t]) = 1 /\ m.vars[t].sc)
    badshape == \E t \in clean :
                  IF has[t] THEN \/ (m.vars[t].sized /\ Len(idx[t]) # m.vars[t].size)
                                 \/ \E k \in 1..Len(idx[t]) : idx[t][k] < 0 \/ idx[t][k] >= m.vars[src[t]].size
                  ELSE m.vars[t].sized /\ m.vars[t].shape # m.vars[src[t]].shape
    badunit == \E t \in clean : m.vars[t].fam # "" /\ m.vars[src[t]].fam # "" /\ m.vars[t].fam # m.vars[src[t]].fam
    free  == {t \in Ins : S[t] = {}}
    group == [t \in free |-> Reach({t}, share, n)]
    baddiff == \E t \in free : \E r \in group[t] : m.vars[r].sized /\ m.vars[t].sized /\
                  (m.vars[r].val # m.vars[t].val \/ m.vars[r].shape # m.vars[t].shape \/ m.vars[r].sc # m.vars[t].sc)
    badunits2 == \E t \in free : \E r \in group[t] : m.vars[r].unit # m.vars[t].unit /\
                  m.vars[r].unit # "" /\ m.vars[t].unit # ""
    ambunit == \E t \in free : \E r \in group[t] : m.vars[r].unit # m.vars[t].unit /\
                  (m.vars[r].unit = "" \/ m.vars[t].unit = "")
    \* several heads feeding one sourceless set, or a ring of inputs: which of them a set reaches is not stated
    ambheads == \E t \in free : Cardinality(group[t]) > 1 /\
                  Cardinality({r \in group[t] : ~\E e \in dshare : e[2] = r /\ e[1] # r}) # 1 /\
                  \E e \in dshare : e[1] \in group[t]
    unsized == \E t \in free : ~m.vars[t].sized
    errs == (IF badprom THEN {"promotes"} ELSE {}) \cup (IF dupout THEN {"duplicate"} ELSE {})
            \cup (IF badconn THEN {"connect"} ELSE {}) \cup (IF multi THEN {"multi"} ELSE {})
            \cup (IF badtype THEN {"type"} ELSE {}) \cup (IF badshape THEN {"shape"} ELSE {})
            \cup (IF badunit THEN {"unit"} ELSE {}) \cup (IF baddiff \/ badunits2 THEN {"sourceless"} ELSE {})
            \cup (IF unsized THEN {"unsized"} ELSE {})
    amb == errs = {} /\ (amb0 \/ ambunit \/ ambheads)
  IN [errs |-> errs, verdict |-> IF errs # {} THEN (IF errs \subseteq {"sourceless", "unsized"} /\ (amb0 \/ ambheads) THEN "either" ELSE "error")
                                 ELSE IF amb THEN "either" ELSE "ok",
      root |-> Root, src |-> src, idx |-> idx, free |-> free, group |-> group, ins |-> Ins, outs |-> Outs]

(* Systems: children of a group, dependencies between children *)
RECURSIVE ChildOf(_, _, _)
\* the child of group g that contains system p ("" when p is not below g)
ChildOf(m, g, p) == IF p = "" THEN "" ELSE LET q == Sub(m, p).parent IN IF q = g THEN p ELSE ChildOf(m, g, q)
Children(m, g) == {m.subs[i].path : i \in {j \in 1..Len(m.subs) : m.subs[j].parent = g}}
Deps(m, w, g) == {<<ChildOf(m, g, m.vars[w.src[t]].comp), ChildOf(m, g, m.vars[t].comp)>> :
                    t \in {x \in w.ins : w.src[x] # 0 /\ ChildOf(m, g, m.vars[x].comp) # ""
                                         /\ ChildOf(m, g, m.vars[w.src[x]].comp) # ""}}
ProperDeps(m, w, g) == {d \in Deps(m, w, g) : d[1] # d[2]}
\* strict precedence required in g: dependencies between children that are not in one cycle
Before(m, w, g) == LET D == ProperDeps(m, w, g) n == Cardinality(Children(m, g)) + 1 IN
                   {d \in D : d[1] \notin Reach({d[2]}, D, n)}
Acyclic(m, w, g) == Before(m, w, g) = ProperDeps(m, w, g)

(* Unit conversion from the units of variable u to those of variable t *)
Converts(m, u, t) == m.vars[u].fam # "" /\ m.vars[t].fam # ""
Conv(m, u, t, x) == IF ~Converts(m, u, t) \/ (m.vars[u].f = m.vars[t].f /\ m.vars[u].o = m.vars[t].o) THEN x
                    ELSE RSub(RMul(RAdd(x, m.vars[u].o), RDiv(m.vars[u].f, m.vars[t].f)), m.vars[t].o)
ConvFac(m, u, t) == IF ~Converts(m, u, t) THEN ROne ELSE RDiv(m.vars[u].f, m.vars[t].f)

(* What input t must hold when vals are the current values *)
InputVal(m, w, vals, t) == IF w.src[t] = 0 THEN vals[t]
                           ELSE [k \in 1..Len(w.idx[t]) |-> Conv(m, w.src[t], t, vals[w.src[t]][w.idx[t][k] + 1])]

(* Polynomials: sequence of terms [c, v] with v a sequence of <<var, entry>> *)
RECURSIVE MonVal(_, _, _)
MonVal(e, v, k) == IF k > Len(v) THEN ROne ELSE RMul(e[v[k][1]][v[k][2]], MonVal(e, v, k + 1))
RECURSIVE PolyVal(_, _, _)
PolyVal(e, ts, k) == IF k > Len(ts) THEN RZero ELSE RAdd(RMul(ts[k].c, MonVal(e, ts[k].v, 1)), PolyVal(e, ts, k + 1))
\* d(monomial)/d(var x entry j): sum over the factor positions
RECURSIVE MonDer(_, _, _, _, _)
MonDer(e, v, x, j, k) ==
  IF k > Len(v) THEN RZero
  ELSE LET rest == [i \in 1..(Len(v) - 1) |-> IF i < k THEN v[i] ELSE v[i + 1]] IN
       RAdd(IF v[k][1] = x /\ v[k][2] = j THEN MonVal(e, rest, 1) ELSE RZero, MonDer(e, v, x, j, k + 1))
RECURSIVE PolyDer(_, _, _, _, _)
PolyDer(e, ts, x, j, k) == IF k > Len(ts) THEN RZero
                           ELSE RAdd(RMul(ts[k].c, MonDer(e, ts[k].v, x, j, 1)), PolyDer(e, ts, x, j, k + 1))
=============================================================================
