------------------------------ MODULE ExecComp -------------------------------
(* Components defined by assignments of expressions.  An expression is evaluated over duals <<value, gradient>>, the
   gradient being by entry of the inputs: value and exact derivatives come out together.  Arrays are the sequences of their
   entries. *)
EXTENDS Rat, FiniteSets, TLC, SequencesExt

Ran(s) == {s[i] : i \in 1..Len(s)}
Cst(r, K) == <<r, [k \in K |-> RZero]>>
Map2(x, y, Op(_, _)) == LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
                        IN [i \in 1..n |-> Op(x[IF Len(x) = 1 THEN 1 ELSE i], y[IF Len(y) = 1 THEN 1 ELSE i])]
Map1(x, Op(_)) == [i \in 1..Len(x) |-> Op(x[i])]
DAdd(x, y) == <<RAdd(x[1], y[1]), [k \in DOMAIN x[2] |-> RAdd(x[2][k], y[2][k])]>>
DNeg(x) == <<RNeg(x[1]), [k \in DOMAIN x[2] |-> RNeg(x[2][k])]>>
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == <<RMul(x[1], y[1]), [k \in DOMAIN x[2] |-> RAdd(RMul(x[1], y[2][k]), RMul(x[2][k], y[1]))]>>
DInv(x) == LET i == RInv(x[1]) IN <<i, [k \in DOMAIN x[2] |-> RNeg(RMul(x[2][k], RMul(i, i)))]>>
DDiv(x, y) == DMul(x, DInv(y))
DAbs(x) == IF x[1][1] < 0 THEN DNeg(x) ELSE x
RECURSIVE DPow(_, _)
DPow(x, k) == IF k = 1 THEN x ELSE DMul(x, DPow(x, k - 1))
RECURSIVE DSum(_)
DSum(s) == IF Len(s) = 1 THEN s[1] ELSE DAdd(s[1], DSum(Tail(s)))
RECURSIVE Val(_, _, _)
Val(env, e, K) ==
  CASE e.op = "c" -> <<Cst(e.v, K)>>
    [] e.op = "v" -> env[e.n]
    [] e.op = "i" -> <<env[e.n][e.i]>>
    [] e.op = "add" -> Map2(Val(env, e.a, K), Val(env, e.b, K), DAdd)
    [] e.op = "sub" -> Map2(Val(env, e.a, K), Val(env, e.b, K), DSub)
    [] e.op = "mul" -> Map2(Val(env, e.a, K), Val(env, e.b, K), DMul)
    [] e.op = "div" -> Map2(Val(env, e.a, K), Val(env, e.b, K), DDiv)
    [] e.op = "neg" -> Map1(Val(env, e.a, K), DNeg)
    [] e.op = "abs" -> Map1(Val(env, e.a, K), DAbs)
    [] e.op = "pow" -> Map1(Val(env, e.a, K), LAMBDA x : DPow(x, e.k))
    [] e.op = "sum" -> <<DSum(Val(env, e.a, K))>>
    [] e.op = "dot" -> <<DSum(Map2(Val(env, e.a, K), Val(env, e.b, K), DMul))>>
\* an assignment to a variable or to one of its entries
Assign(env, s, K) == LET v == Val(env, s.e, K)
                     IN IF s.i > 0 THEN [env EXCEPT ![s.n][s.i] = v[1]]
                        ELSE [env EXCEPT ![s.n] = [i \in 1..Len(env[s.n]) |-> v[IF Len(v) = 1 THEN 1 ELSE i]]]
RECURSIVE Exec(_, _, _)
Exec(env, prog, K) == IF prog = <<>> THEN env ELSE Exec(Assign(env, Head(prog), K), Tail(prog), K)
\* the variables
RECURSIVE Uses(_)
Uses(e) == CASE e.op = "c" -> {} [] e.op \in {"v", "i"} -> {e.n}
             [] e.op \in {"add", "sub", "mul", "div", "dot"} -> Uses(e.a) \cup Uses(e.b)
             [] OTHER -> Uses(e.a)
Outs(prog) == {s.n : s \in Ran(prog)}
Ins(prog) == UNION {Uses(s.e) : s \in Ran(prog)} \ Outs(prog)
\* the entries of the inputs of an assignment of values, and the duals that make them independent
Entries(val, ins) == UNION {{<<n, i>> : i \in 1..Len(val[n])} : n \in ins}
Env(val, ins) == LET K == Entries(val, ins)
                 IN [n \in DOMAIN val |-> [i \in 1..Len(val[n]) |-> <<val[n][i], [k \in K |-> IF k = <<n, i>> THEN ROne ELSE RZero]>>]]
After(val, prog) == LET e == Exec(Env(val, Ins(prog)), prog, Entries(val, Ins(prog))) IN [n \in DOMAIN val |-> [i \in 1..Len(val[n]) |-> e[n][i][1]]]
\* d entry j of output u / d entry i of input p at the current values
Jac(val, prog) == Exec(Env(val, Ins(prog)), prog, Entries(val, Ins(prog)))
=============================================================================
