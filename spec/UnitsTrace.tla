----------------------------- MODULE UnitsTrace ----------------------------
(* Histories of conversions by the real code judged against Units.  Nothing of the history enters the judgement. *)
EXTENDS Units, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei
vars == <<ci, ei>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Near(a, b) == Abs(a - b) <= 40
Init == ci = 1 /\ ei = 1
Q == [a |-> Ev.ta, b |-> Ev.tb]
\* every means of asking: conversion tuple, convert_units, quantities
Conversion ==
  LET u == Mean(Ev.a) v == Mean(Ev.b)
      good == Compatible(u, v)
  IN /\ \A i \in 1..Len(Ev.ok) : Chk(Ev.ok[i] = good, IF good THEN "C17:refused" ELSE "C17:accepted", [q |-> Q, by |-> i])
     /\ Chk(Ev.valid = <<Valid(u), Valid(v)>>, "C17:validity", Q)
     /\ IF good /\ \A i \in 1..Len(Ev.ok) : Ev.ok[i]
        THEN /\ Chk(Ev.compat, "C17:is-compatible", Q)
             /\ Chk(Near(Ev.lf, u.l - v.l) /\ Ev.pos, "C17:factor", [q |-> Q, got |-> Ev.lf, want |-> u.l - v.l])
             /\ Chk(Ev.err <= 20, "C17:round-trip", Q)
             /\ Chk(Ev.agree <= 20, "C17:means-differ", Q)
             /\ IF u.off \/ v.off
                THEN \A i \in 1..Len(Ev.xs) :
                       Chk(~(Scale(u) /\ Scale(v)) \/ REq(Ev.ys[i], Conv(u, v, Ev.xs[i])), "C17:offset",
                           [q |-> Q, x |-> Ev.xs[i], y |-> Ev.ys[i]])
                ELSE Chk(Ev.off0, "C17:offset", Q) /\ Chk(Ev.scaled, "C17:value", Q)
        ELSE TRUE
\* composition through an intermediate unit
Compose ==
  LET u == Mean(Ev.a) v == Mean(Ev.b) c == Mean(Ev.c)
  IN Chk(Ev.ok = (Compatible(u, c) /\ Compatible(c, v)), "C17:compose-refused", [q |-> Q, via |-> Ev.tc])
     /\ (IF Ev.ok THEN Chk(Ev.err <= 20, "C17:compose", [q |-> Q, via |-> Ev.tc]) ELSE TRUE)
Base ==
  LET u == Mean(Ev.a)
  IN Chk(Ev.ok = Valid(u), "C17:base-refused", Ev.ta)
     /\ (IF Valid(u) /\ Ev.ok
         THEN IF u.off THEN \A i \in 1..Len(Ev.xs) : Chk(REq(Ev.ys[i], Conv(u, Name("K"), Ev.xs[i])), "C17:base-offset", Ev.ta)
              ELSE Chk(Near(Ev.lf, u.l), "C17:base-factor", Ev.ta)
         ELSE TRUE)
Step == /\ ei <= Len(Case.ev)
        /\ CASE Ev.op = "conv" -> Conversion [] Ev.op = "comp" -> Compose [] Ev.op = "base" -> Base
        /\ ei' = ei + 1 /\ UNCHANGED ci
NextCase == /\ ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1
Crash == Bad("C17:no-outcome", Case.outcome) /\ ei' = Len(Case.ev) + 1 /\ UNCHANGED ci
Next == IF ei > Len(Case.ev) THEN NextCase
        ELSE IF ei = 1 /\ Case.outcome # "done" THEN Crash ELSE Step
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
