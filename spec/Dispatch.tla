------------------------------ MODULE Dispatch ------------------------------
(* Distribution of cases to workers.  The state is what an observer of the protocol knows; the transitions are the
   events: a case is taken from the plan, a worker starts a case, the master hears from a worker, a result is
   collected, an actor ends.  Guard gives the names of the rules that an event breaks in a state; Step the next state.
     out : sequence of "ok" | "fail" (analysis error) | "fatal" | "bad" (cannot be set up), one per case            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Started(st, c) == {w \in DOMAIN st.starts : \E i \in 1..Len(st.starts[w]) : st.starts[w][i] = c}
NStarts(st, c) == Cardinality({p \in (DOMAIN st.starts) \X (1..10) : p[2] <= Len(st.starts[p[1]]) /\ st.starts[p[1]][p[2]] = c})
Fatal(k) == k \in {"fatal", "bad"}
AnyFatal(out) == \E c \in 1..Len(out) : Fatal(out[c])
\* a case counts as started by the group of actors working on it
S0(out, workers) == [out |-> out, taken |-> <<>>, starts |-> [w \in workers |-> <<>>], heard |-> [w \in workers |-> 0],
                     learned |-> FALSE, recorded |-> {}, ended |-> {}]
OwnFatal(st, w) == \E i \in 1..Len(st.starts[w]) : Fatal(st.out[st.starts[w][i]])

Guard(st, e) ==
  CASE e.op = "take"  -> (IF st.learned THEN {"case-after-fatal"} ELSE {})
                         \cup (IF e.c \in {st.taken[i] : i \in 1..Len(st.taken)} THEN {"taken-twice"} ELSE {})
    [] e.op = "start" -> (IF \E i \in 1..Len(st.starts[e.w]) : st.starts[e.w][i] = e.c THEN {"started-twice"} ELSE {})
                         \cup (IF \E v \in DOMAIN st.starts \ e.grp : \E i \in 1..Len(st.starts[v]) : st.starts[v][i] = e.c
                               THEN {"started-by-two"} ELSE {})
                         \cup (IF e.c \notin 1..Len(st.out) THEN {"unknown-case"} ELSE {})
                         \cup (IF OwnFatal(st, e.w) THEN {"start-after-own-fatal"} ELSE {})
    [] e.op = "heard" -> {}
    [] e.op = "rec"   -> IF e.c \notin 1..Len(st.out) THEN {"unknown-result"}
                         ELSE (IF e.c \in st.recorded THEN {"recorded-twice"} ELSE {})
                              \cup (IF ~\E w \in DOMAIN st.starts : \E i \in 1..Len(st.starts[w]) : st.starts[w][i] = e.c
                                    THEN {"recorded-unstarted"} ELSE {})
                              \cup (IF Fatal(st.out[e.c]) THEN {"fatal-recorded"} ELSE {})
                              \cup (IF ~e.vals THEN {"wrong-values"} ELSE {})
                              \cup (IF e.success # (st.out[e.c] = "ok") \/ e.msg = (st.out[e.c] = "ok") THEN {"wrong-status"} ELSE {})
                              \cup (IF e.coord # 0 /\ e.coord # e.c THEN {"wrong-coordinate"} ELSE {})
    [] e.op = "end"   -> {}
    [] OTHER -> {"unknown-event"}
Step(st, e) ==
  CASE e.op = "take"  -> [st EXCEPT !.taken = Append(@, e.c)]
    [] e.op = "start" -> [st EXCEPT !.starts[e.w] = Append(@, e.c)]
    \* the k-th message of a worker answers its k-th case
    [] e.op = "heard" -> LET k == st.heard[e.w] + 1
                         IN [st EXCEPT !.heard[e.w] = k,
                             !.learned = @ \/ (k <= Len(st.starts[e.w]) /\ Fatal(st.out[st.starts[e.w][k]]))]
    [] e.op = "rec"   -> [st EXCEPT !.recorded = @ \cup {e.c}]
    [] e.op = "end"   -> [st EXCEPT !.ended = @ \cup {e.w}]
    [] OTHER -> st
StartedSet(st) == UNION {{st.starts[w][i] : i \in 1..Len(st.starts[w])} : w \in DOMAIN st.starts}
\* when nothing can happen any more
Final(st, actors, drains) ==
  (IF st.ended # actors THEN {"hang"} ELSE {})
  \cup (IF ~AnyFatal(st.out) /\ st.recorded # 1..Len(st.out) THEN {"result-lost"} ELSE {})
  \cup (IF st.ended = actors /\ drains /\ {c \in StartedSet(st) : ~Fatal(st.out[c])} \ st.recorded # {} THEN {"result-lost"} ELSE {})
=============================================================================
