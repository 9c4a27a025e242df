------------------------------ MODULE Options ------------------------------
(* Declared option dictionaries (openmdao/util/options.py) as a functional state machine: Apply gives the next
   state and whether the operation is accepted; Read gives what every means of reading must show.
   A value is [t |-> type name, n |-> rank, s |-> text]: ranks order the numbers of one history exactly; n = -1
   for values that are not ordered (NaN, strings, None ...). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
NewDict(kind) == [opts |-> Empty, deps |-> Empty, kind |-> kind]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

SameV(a, b) == a.t = b.t /\ a.s = b.s
Within(o, v) == /\ o.lo # -1 => v.n # -1 /\ o.lo <= v.n
                /\ o.up # -1 => v.n # -1 /\ v.n <= o.up
\* the value may be stored in option o
Fits(o, v) == IF o.ch # <<>> THEN \E i \in 1..Len(o.ch) : SameV(o.ch[i], v)
              ELSE v.t = o.val.t /\ Within(o, v)

Real(d, name) == IF name \in DOMAIN d.opts THEN name
                 ELSE IF name \in DOMAIN d.deps THEN d.deps[name] ELSE name
Declared(d, name) == Real(d, name) \in DOMAIN d.opts

Stay(d) == [d |-> d, ok |-> FALSE]

Add(d, locked, op) ==
  LET o == [val |-> op.v, lo |-> op.lo, up |-> op.up, ch |-> op.ch, lock |-> op.lock, chg |-> FALSE]
  IN IF op.name \in DOMAIN d.opts \/ (locked /\ op.lock) \/ ~Fits(o, op.v) THEN Stay(d)
     ELSE [d |-> [d EXCEPT !.opts = Put(@, op.name, o)], ok |-> TRUE]

Remove(d, op) == [d |-> [d EXCEPT !.opts = Del(@, op.name)], ok |-> TRUE]

Deprecate(d, op) == IF op.new \in DOMAIN d.opts THEN [d |-> [d EXCEPT !.deps = Put(@, op.name, op.new)], ok |-> TRUE]
                    ELSE Stay(d)

Store(d, r, v) == [d EXCEPT !.opts[r].val = v, !.opts[r].chg = TRUE]
\* differentiation options: the step size not set by the user follows the type
Follow(d, r, v, op) ==
  LET sz == IF r = "type" THEN "step_size" ELSE "check_step_size"
      nv == IF v.s = "fd" THEN op.stepfd ELSE op.stepcs
  IN IF d.kind = "deriv" /\ r \in {"type", "check_type"} /\ v.s \in {"fd", "cs"} /\ ~d.opts[sz].chg
     THEN [d EXCEPT !.opts[sz].val = nv] ELSE d

Set(d, locked, op) ==
  LET r == Real(d, op.name)
  IN IF r \notin DOMAIN d.opts THEN Stay(d)
     ELSE LET o == d.opts[r]
          IN IF (locked /\ o.lock) \/ ~Fits(o, op.v) THEN Stay(d)
             ELSE [d |-> Follow(Store(d, r, op.v), r, op.v, op), ok |-> TRUE]

Apply(d, locked, op) ==
  CASE op.op = "add" -> Add(d, locked, op)
    [] op.op = "remove" -> Remove(d, op)
    [] op.op = "dep" -> Deprecate(d, op)
    [] op.op = "set" -> Set(d, locked, op)
    [] OTHER -> [d |-> d, ok |-> TRUE]

\* invariants of the design
Typed(d) == \A k \in DOMAIN d.opts : Fits(d.opts[k], d.opts[k].val)
=============================================================================
