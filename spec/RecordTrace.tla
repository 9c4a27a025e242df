---------------------------- MODULE RecordTrace ------------------------------
(* Runs of real problems with recorders on the driver and on solvers of nested groups, judged against Record: what each
   recorder holds at any moment, and what a reader of its file returns. *)
EXTENDS Record, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, st
vars == <<ci, ei, st>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
\* st.s : Record state; st.vals[i] : what belongs to st.s.done[i]; st.der : derivatives of the driver; st.fresh : before any iteration
Start(c) == [s |-> Idle(c.kinds), vals |-> <<>>, der |-> <<>>, ran |-> 0]
Init == ci = 1 /\ ei = 1 /\ st = Start(Cases[1])
Nums(n) == IF Len(n) = 1 THEN ToString(n[1]) ELSE ToString(n[1]) \o "-" \o ToString(n[2])
RECURSIVE Join(_)
Join(c) == IF Len(c) = 1 THEN c[1][1] \o "|" \o Nums(c[1][2]) ELSE c[1][1] \o "|" \o Nums(c[1][2]) \o "|" \o Join(Tail(c))
Text(c) == "rank0:" \o Join(c)
\* the state after s with the values v of the iteration if one was completed
With(s, v) == [st EXCEPT !.s = s, !.vals = @ \o [i \in 1..(Len(s.done) - Len(st.s.done)) |-> v]]
Ok(e) == [p |-> e.p, u |-> e.u, r |-> e.r, success |-> 1, msg |-> ""]
\* a run of the driver begins: its solves are numbered on from the last run, from 0 per run, or from 0 outside the optimization
Run ==
  [st EXCEPT !.s.name = Ev.name, !.s.stk = <<>>, !.ran = @ + 1,
     !.s.it = CASE Case.driver = "base" -> @ + (IF st.ran = 0 THEN 1 ELSE 0) [] OTHER -> 0,
     !.s.on = Case.driver \in {"base", "cases"}]
\* a failed analysis: ends the run of a plain driver (the iteration counts, without a record), is an iteration of a driver of cases and of an
\* optimizer that goes on
ExitEv ==
  LET g == Ev.g
  IN IF Ev.ok \/ Len(st.s.stk) > 1 THEN With(Exit(st.s, g), Ok(Ev))
     ELSE IF Case.driver \in {"cases", "pyopt"} /\ st.s.on
     THEN With(Exit(st.s, g), [Ok(Ev) EXCEPT !.success = 0, !.msg = Ev.err])
     ELSE [st EXCEPT !.s.stk = <<>>, !.s.it = @ + 1]
\* the records a recorder has to hold
Owned(r) == SelectSeq([i \in 1..Len(st.s.done) |-> i], LAMBDA i : st.s.done[i][1] \in Ran(r.owners))
Rec(r, i) == LET v == st.vals[i]
             IN [c |-> Text(st.s.done[i][2]), s |-> v.success, m |-> v.msg,
                 p |-> IF r.p THEN Pick(v.p, r.inc, r.exc) ELSE [x \in {} |-> ""], u |-> IF r.u THEN Pick(v.u, r.inc, r.exc) ELSE [x \in {} |-> ""],
                 r |-> IF r.r THEN Pick(v.r, r.inc, r.exc) ELSE [x \in {} |-> ""]]
Recs(r) == LET o == Owned(r) IN [k \in 1..Len(o) |-> Rec(r, o[k])]
Ders(r) == IF r.d /\ "#driver" \in Ran(r.owners) THEN [i \in 1..Len(st.der) |-> [c |-> Text(st.der[i][1]), v |-> st.der[i][2], s |-> st.der[i][3]]] ELSE <<>>
\* what was kept for each name: a table of names and values, as a function
Fn(t) == [n \in {t[i][1] : i \in 1..Len(t)} |-> (CHOOSE e \in Ran(t) : e[1] = n)[2]]
Once(t) == Cardinality({t[i][1] : i \in 1..Len(t)}) = Len(t)
Got(x) == [c |-> x.c, s |-> x.s, m |-> x.m, p |-> Fn(x.p), u |-> Fn(x.u), r |-> Fn(x.r)]
Same(cl, want, got) ==     \* one clause per way to differ
  /\ Chk(got.c = want.c, cl \o "coordinate", <<got.c, want.c>>)
  /\ Chk(got.s = want.s /\ got.m = want.m, cl \o "success", <<want.c, got.s, got.m>>)
  /\ Chk(DOMAIN got.p = DOMAIN want.p /\ DOMAIN got.u = DOMAIN want.u /\ DOMAIN got.r = DOMAIN want.r, cl \o "variables",
         <<want.c, DOMAIN got.p, DOMAIN want.p, DOMAIN got.u, DOMAIN want.u, DOMAIN got.r, DOMAIN want.r>>)
  /\ LET Wrong(f, g) == {n \in DOMAIN f \cap DOMAIN g : f[n] # g[n]}
     IN /\ Chk(Wrong(got.p, want.p) = {}, cl \o "params", <<want.c, [n \in Wrong(got.p, want.p) |-> <<got.p[n], want.p[n]>>]>>)
        /\ Chk(Wrong(got.u, want.u) = {}, cl \o "unknowns", <<want.c, [n \in Wrong(got.u, want.u) |-> <<got.u[n], want.u[n]>>]>>)
        /\ Chk(Wrong(got.r, want.r) = {}, cl \o "resids", <<want.c, [n \in Wrong(got.r, want.r) |-> <<got.r[n], want.r[n]>>]>>)
Shown(w) == LET T(f) == [n \in DOMAIN f |-> Case.text[f[n]]] IN [w EXCEPT !.p = T(@), !.u = T(@), !.r = T(@)]
\* a recorder in memory or a dump: all the records in order
Listed(r, want) ==
  /\ Chk([i \in 1..Len(Ev.recs) |-> Ev.recs[i].c] = [i \in 1..Len(want) |-> want[i].c], "C09:iterations",
         <<r.type, [i \in 1..Len(Ev.recs) |-> Ev.recs[i].c], [i \in 1..Len(want) |-> want[i].c]>>)
  /\ \A i \in 1..Len(Ev.recs) : i <= Len(want) => Same("C09:", want[i], Got(Ev.recs[i]))
\* a table with a header
CsvRow(want, row, heads) ==
  LET n == Cardinality(DOMAIN want.p) m == Cardinality(DOMAIN want.u) k == Cardinality(DOMAIN want.r)
      T(f, a, b) == {<<x, Case.csv[f[x]]>> : x \in DOMAIN f} = {<<heads[j], row[j]>> : j \in a..b}
  IN Chk(Len(heads) >= 1 + n + m + k /\ Len(row) = Len(heads) /\ row[1] = ToString(want.s)
         /\ T(want.p, 2, n + 1) /\ T(want.u, n + 2, n + m + 1) /\ T(want.r, n + m + 2, n + m + k + 1), "C09:row", <<want, row, heads>>)
\* a file of cases: of the cases with the same coordinate (of several runs) the last one stays
LastAt(seq, c) == CHOOSE i \in 1..Len(seq) : seq[i].c = c /\ \A j \in (i + 1)..Len(seq) : seq[j].c # c
Coords(seq) == {seq[i].c : i \in 1..Len(seq)}
Read(r, want, wd) ==
  /\ Chk(Ran(Ev.keys) = Coords(want) /\ Len(Ev.keys) = Cardinality(Coords(want)), "C10:cases", <<Ev.keys, Coords(want)>>)
  /\ Chk(Cardinality(Coords(want)) # Len(want) \/ Ev.keys = [i \in 1..Len(want) |-> want[i].c], "C10:order", <<Ev.keys, [i \in 1..Len(want) |-> want[i].c]>>)
  /\ Chk(Ev.n = Len(Ev.keys), "C10:count", <<Ev.n, Len(Ev.keys)>>)
  /\ \A i \in 1..Len(Ev.recs) :
       LET g == Ev.recs[i]
       IN /\ Chk(g.c = Ev.keys[g.at], "C10:by-position", <<g.at, g.c>>)
          /\ Chk(g.same, "C10:by-coordinate", <<g.at, g.c>>)
          /\ g.c \in Coords(want) =>
               LET w == want[LastAt(want, g.c)] dv == SelectSeq(wd, LAMBDA d : d.c = g.c)
               IN /\ Same("C10:", w, Got(g))
                  /\ Chk(g.kinds = <<r.p, r.u, r.r>>, "C10:kinds", <<g.c, g.kinds>>)
                  /\ Chk(g.d = IF dv = <<>> THEN "" ELSE Last(dv).v, "C10:derivatives", <<g.c, g.d, dv>>)
  /\ Chk(Ev.untouched, "C10:file-changed", r.id)
  /\ Chk(Ev.meta, "C10:metadata", r.id)
Dump ==
  LET r == Case.recs[Ev.i] want == Recs(r) wd == Ders(r)
  IN /\ CASE r.type = "mem" -> /\ Listed(r, want)
                               /\ Chk(Ev.ders = [i \in 1..Len(wd) |-> wd[i].v], "C09:derivatives", <<Ev.ders, wd>>)
          [] r.type = "dump" -> /\ Listed(r, [i \in 1..Len(want) |-> Shown(want[i])])
                                /\ Chk([i \in 1..Len(Ev.ders) |-> Ev.ders[i].c] = [i \in 1..Len(wd) |-> wd[i].c], "C09:derivatives", <<Ev.ders, wd>>)
          [] r.type = "csv" -> /\ Chk(Len(Ev.rows) = Len(want) /\ Len(Ev.drows) = Len(wd), "C09:rows", <<Len(Ev.rows), Len(want), Len(Ev.drows), Len(wd)>>)
                               /\ \A i \in 1..Len(Ev.rows) : i <= Len(want) => CsvRow(want[i], Ev.rows[i], Ev.heads)
          [] r.type = "sql" -> Read(r, want, wd)
     /\ Chk(Ev.times, "C09:timestamps", r.id)
Act == IF Case.outcome # "done" THEN Bad("C09:no-outcome", Case.outcome) /\ UNCHANGED st /\ ei' = Len(Case.ev) + 1
       ELSE /\ CASE Ev.op = "run" -> st' = Run
                 [] Ev.op = "begin" -> st' = [st EXCEPT !.s.on = TRUE, !.s.it = 1]
                 [] Ev.op = "end" -> st' = [st EXCEPT !.s.on = FALSE]
                 [] Ev.op = "enter" -> st' = [st EXCEPT !.s = Enter(@, Ev.g, Case.names[Ev.g])]
                 [] Ev.op = "sweep" -> st' = With(Sweep(st.s, Ev.g), Ok(Ev))
                 [] Ev.op = "lin" -> st' = [st EXCEPT !.s = Lin(@, Ev.g)]
                 [] Ev.op = "apply" -> st' = With(Apply(st.s, Ev.g), Ok(Ev))
                 [] Ev.op = "exit" -> st' = ExitEv
                 [] Ev.op = "deriv" -> st' = [st EXCEPT !.der = Append(@, <<IF st.s.on THEN <<<<st.s.name, <<st.s.it - 1>>>>>> ELSE Here(st.s), Ev.v, 1>>)]
                 [] Ev.op = "dump" -> Dump /\ UNCHANGED st
            /\ ei' = ei + 1
NextCase == ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ st' = Start(Cases[ci + 1])
Next == (ei <= Len(Case.ev) /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
