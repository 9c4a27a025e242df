----------------------------- MODULE ExecCompMC ------------------------------
(* All expressions of two operations over a scalar and a pair: gradients are exact (central differences of functions of
   degree two at most, and the product and quotient laws), entries of inputs are independent. *)
EXTENDS ExecComp
VARIABLES e, x
Leaf == {[op |-> "c", v |-> <<2, 1>>], [op |-> "v", n |-> "a"], [op |-> "v", n |-> "b"], [op |-> "i", n |-> "b", i |-> 2]}
Bin(S) == {[op |-> o, a |-> p, b |-> q] : o \in {"add", "sub", "mul"}, p \in S, q \in Leaf}
Una(S) == {[op |-> "neg", a |-> p] : p \in S} \cup {[op |-> "sum", a |-> p] : p \in S}
One == Bin(Leaf) \cup Una(Leaf) \cup {[op |-> "pow", a |-> l, k |-> 2] : l \in Leaf} \cup {[op |-> "dot", a |-> p, b |-> q] : p, q \in {l \in Leaf : l.op = "v" /\ l.n = "b"}}
Vals == {<<1, 1>>, <<-2, 1>>, <<1, 2>>}
Init == /\ e \in One
        /\ x \in {[a |-> <<p>>, b |-> <<q, r>>] : p \in Vals, q \in Vals, r \in Vals}
\* a second operation
Next == /\ e \in One /\ UNCHANGED x
        /\ e' \in {[op |-> o, a |-> e, b |-> q] : o \in {"add", "sub"}, q \in One} \cup Una({e})
Spec == Init /\ [][Next]_<<e, x>>
K == Entries(x, {"a", "b"})
At(y) == Val(Env(y, {"a", "b"}), e, K)
Shift(k, h) == [x EXCEPT ![k[1]][k[2]] = RAdd(@, h)]
\* exact for degree two
Central == LET v == At(x) IN \A k \in K :
  LET u == At(Shift(k, ROne)) d == At(Shift(k, <<-1, 1>>))
  IN \A i \in 1..Len(v) : v[i][2][k] = RMul(<<1, 2>>, RSub(u[i][1], d[i][1]))
Quotient == LET v == At(x) IN \A i \in 1..Len(v) : v[i][1][1] # 0 =>
  LET q == DDiv(v[i], v[i]) IN q[1] = ROne /\ \A k \in K : q[2][k] = RZero
Frame == LET p == <<[n |-> "y", i |-> 0, e |-> e]>> z == [a |-> x.a, b |-> x.b, y |-> <<RZero, RZero>>]
         IN LET w == After(z, p) IN w.a = x.a /\ w.b = x.b /\ Len(w.y) = 2
=============================================================================
