------------------------------ MODULE UnitsMC ------------------------------
(* Design of the lookup: a cache of expressions already evaluated and (optionally) prefixed units added to the table.
   With Pollute = FALSE every name means what Units says, after every history; with Pollute = TRUE (prefixed units are
   themselves given to later prefix lookups) that fails, which is the counterexample behind the repair of the code. *)
EXTENDS Units
CONSTANT Pollute
VARIABLES table, cache
Univ == {"m", "am", "dam", "kN", "mkN", "dag", "ag", "zz", "dah", "ah", "degC", "mdegC"}
Init == table = [n \in Names |-> Lib[n]] /\ cache = [x \in {} |-> 0]
Look(t, n) ==
  LET k == Len(n)
      try(j) == k > j /\ SubSeq(n, 1, j) \in DOMAIN Prefixes /\ SubSeq(n, j + 1, k) \in DOMAIN t /\ SubSeq(n, j + 1, k) \notin OffsetUnits
      pre(j) == <<t[SubSeq(n, j + 1, k)][1] + Prefixes[SubSeq(n, 1, j)], t[SubSeq(n, j + 1, k)][2]>>
  IN IF n \in DOMAIN t THEN t[n] ELSE IF try(1) THEN pre(1) ELSE IF try(2) THEN pre(2) ELSE <<>>
Get(n) == IF n \in DOMAIN cache THEN cache[n] ELSE Look(table, n)
Ask(n) == LET r == Get(n) IN
  /\ cache' = IF r = <<>> THEN cache ELSE n :> r @@ cache
  /\ table' = IF Pollute /\ r # <<>> THEN n :> r @@ table ELSE table
Next == \E n \in Univ : Ask(n)
Spec == Init /\ [][Next]_<<table, cache>>
History == \A n \in Univ : LET m == Name(n) IN Get(n) = IF Valid(m) THEN <<m.l, m.d>> ELSE <<>>
\* algebra, for all names and a few combinations
Some == {"m", "ft", "km", "N", "kg", "lbf", "s", "min", "K", "degC", "degF", "degR", "Pa", "psi"}
N(n) == [k |-> "n", name |-> n]
Algebra == \A a, b \in Some : LET u == Name(a) v == Name(b) IN
  /\ Compatible(u, v) <=> Compatible(v, u)
  /\ Scale(u) /\ Scale(v) => \A x \in {<<0, 1>>, <<-40, 1>>, <<5, 2>>} : REq(Conv(v, u, Conv(u, v, x)), x)
  /\ Scale(u) /\ Scale(v) => \A c \in {"K", "degC", "degF", "degR"} : REq(Conv(Name(c), v, Conv(u, Name(c), <<7, 3>>)), Conv(u, v, <<7, 3>>))
  /\ Valid(u) /\ Valid(v) /\ ~u.off /\ ~v.off =>
       Mean([k |-> "/", a |-> [k |-> "*", a |-> N(a), b |-> N(b)], b |-> N(b)]).d = u.d
ASSUME Algebra
=============================================================================
