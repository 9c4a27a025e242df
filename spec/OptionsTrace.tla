--------------------------- MODULE OptionsTrace ----------------------------
(* Histories of the real option dictionaries judged against Options. *)
EXTENDS Options, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ds, locked
vars == <<ci, ei, ds, locked>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Dicts(c) == [k \in 1..Len(Cases[c].kinds) |-> NewDict(Cases[c].kinds[k])]
Init == ci = 1 /\ ei = 1 /\ ds = Dicts(1) /\ locked = FALSE

\* what must be read back of one dictionary: item access, get with a default, membership; and the listing
ReadOK(d, r) == IF Declared(d, r.name)
                THEN LET v == d.opts[Real(d, r.name)].val IN r.has /\ SameV(r.item, v) /\ SameV(r.get, v)
                ELSE r.item.t = "!KeyError" /\ (r.name \notin DOMAIN d.deps => ~r.has /\ r.get.t = "!default")
ListOK(d, l) == /\ {l[i].name : i \in 1..Len(l)} = DOMAIN d.opts /\ Len(l) = Cardinality(DOMAIN d.opts)
                /\ \A i \in 1..Len(l) : SameV(l[i].v, d.opts[l[i].name].val)
SnapOK(d, s) == /\ \A i \in 1..Len(s.reads) : Chk(ReadOK(d, s.reads[i]), "C15:read", s.reads[i])
                /\ Chk(ListOK(d, s.items), "C15:items", s.items)

Act == /\ Ev.op # "lock"
       /\ LET r == Apply(ds[Ev.d], locked, Ev)
          IN /\ Chk(r.ok = Ev.ok, IF Ev.ok THEN "C15:accepted" ELSE "C15:refused", Ev)
             /\ ds' = [ds EXCEPT ![Ev.d] = r.d]
             \* go on only from an agreed state
             /\ ei' = IF r.ok = Ev.ok THEN ei + 1 ELSE Len(Case.ev) + 1
       /\ \A k \in 1..Len(Ev.snap) : SnapOK(ds'[Ev.snap[k].d], Ev.snap[k])
       /\ UNCHANGED <<ci, locked>>
Lock == /\ Ev.op = "lock" /\ locked' = TRUE /\ ei' = ei + 1 /\ UNCHANGED <<ci, ds>>
\* the old interface to differentiation options
FdGet == Ev.op = "fdget" =>
   LET d == ds[Ev.d]
       t == [force_fd |-> "type", step_type |-> "step_calc", extra_check_partials_form |-> "check_form"]
       v == d.opts[IF Ev.name \in DOMAIN t THEN t[Ev.name] ELSE Ev.name].val
   IN Chk(IF Ev.name = "force_fd" THEN Ev.v.s = (IF v.s \in {"fd", "cs"} THEN "True" ELSE "False") ELSE SameV(Ev.v, v),
          "C15:deprecated-read", Ev)
NextCase == /\ ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1
            /\ ds' = Dicts(ci + 1) /\ locked' = FALSE
Crash == Case.outcome # "done" /\ Bad("C15:no-outcome", Case.outcome) /\ ei' = Len(Case.ev) + 1 /\ UNCHANGED <<ci, ds, locked>>
Next == IF ei > Len(Case.ev) THEN NextCase
        ELSE IF ei = 1 /\ Case.outcome # "done" THEN Crash
        ELSE (Act /\ FdGet) \/ Lock
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
