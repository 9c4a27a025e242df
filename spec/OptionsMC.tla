----------------------------- MODULE OptionsMC -----------------------------
(* Exhaustive exploration of Options over a small universe. *)
EXTENDS Options
VARIABLES d, locked
vars == <<d, locked>>
I(n) == [t |-> "int", n |-> n, s |-> ToString(n)]
F(n) == [t |-> "float", n |-> n, s |-> ToString(n)]
N == [t |-> "float", n |-> -1, s |-> "nan"]
S(x) == [t |-> "str", n |-> -1, s |-> x]
Vals == {I(0), I(2), F(1), N, S("fd")}
Names == {"a", "b"}
Ops == [op : {"add"}, name : {"a"}, v : {I(0), F(1)}, lo : {-1, 1}, up : {-1, 1}, ch : {<<>>}, lock : BOOLEAN]
       \cup [op : {"add"}, name : Names, v : {I(0), S("fd")}, lo : {-1}, up : {-1}, ch : {<<I(0), I(2)>>}, lock : BOOLEAN]
       \cup [op : {"remove"}, name : Names]
       \cup [op : {"dep"}, name : {"old"}, new : Names]
       \cup [op : {"set"}, name : Names \cup {"old", "zz"}, v : Vals]
Init == d = NewDict("plain") /\ locked = FALSE
Next == \/ ~locked /\ locked' = TRUE /\ UNCHANGED d
        \/ \E op \in Ops : d' = Apply(d, locked, op).d /\ UNCHANGED locked
Spec == Init /\ [][Next]_vars
TypeInv == Typed(d)
\* a refused operation changes nothing; a locked option never changes; a set through the old name is a set of the new one
StepInv == \A op \in Ops : LET r == Apply(d, locked, op) IN
  /\ ~r.ok => r.d = d
  /\ locked => \A k \in DOMAIN d.opts : d.opts[k].lock /\ k \in DOMAIN r.d.opts => r.d.opts[k] = d.opts[k]
  /\ op.op = "set" /\ op.name = "old" /\ "old" \in DOMAIN d.deps => Apply(d, locked, [op EXCEPT !.name = d.deps["old"]]) = r
  /\ op.op = "set" /\ r.ok => r.d.opts[Real(r.d, op.name)].val = op.v
=============================================================================
