--------------------------- MODULE DispatchTrace ----------------------------
(* Event logs of the real loops, judged event by event with the rules of Dispatch. *)
EXTENDS Dispatch, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, st
vars == <<ci, ei, st>>
Case == Cases[ci]
Ran(s) == {s[i] : i \in 1..Len(s)}
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, "C12:" \o cl, x>>)>>)
BadAll(S, x) == \A cl \in S : Bad(cl, x)
Actors(c) == Ran(c.actors)
Start(c) == S0(c.out, Actors(c))
\* which rules apply to which kind of distribution
Applies(r) == CASE r \in {"case-after-fatal", "taken-twice"} -> Case.kind \in {"mp", "lb", "eval"}
                [] r = "start-after-own-fatal" -> Case.kind = "mp"
                [] r = "fatal-recorded" -> Case.kind \in {"mp", "lb"}
                [] OTHER -> TRUE
E0(e) == IF e.op = "start" THEN [e EXCEPT !.grp = Ran(e.grp)] ELSE e
\* each rank of a concurrent evaluation may walk through the plan; only the master's walk is logged
Init == ci = 1 /\ ei = 1 /\ st = Start(Cases[1])
Step1 == /\ ei <= Len(Case.log)
         /\ LET e == E0(Case.log[ei])
            IN /\ BadAll({r \in Guard(st, e) : Applies(r)}, e)
               /\ st' = Step(st, e)
         /\ ei' = ei + 1 /\ UNCHANGED ci
\* the responses: one per case, in any order, of the cases that were recorded
RespOK == LET got == [i \in 1..Len(Case.final) |-> Case.final[i].c]
              G(i) == LET f == Case.final[i] IN /\ f.c \in 1..Len(Case.out) /\ f.vals
                                                /\ f.success = (Case.out[f.c] = "ok") /\ f.msg = (Case.out[f.c] # "ok")
          IN /\ BadAll({r \in {"response-wrong"} : \E i \in 1..Len(got) : ~G(i)}, Case.final)
             /\ BadAll({r \in {"response-twice"} : Cardinality(Ran(got)) # Len(got)}, got)
             /\ BadAll({r \in {"response-lost"} : (Case.rec /\ Ran(got) # st.recorded) \/ (~AnyFatal(Case.out) /\ Ran(got) # 1..Len(Case.out))}, got)
EvalOK == \A k \in 1..Len(Case.final) :
            LET got == Case.final[k].got
            IN /\ BadAll({r \in {"result-lost"} : Len(got) # Len(Case.out)}, got)
               /\ (Len(got) = Len(Case.out)) =>
                   \A i \in 1..Len(got) :
                      BadAll({r \in {"result-of-another-case"} :
                              ~(IF Case.out[i] = "ok" THEN got[i].c = i /\ got[i].vals /\ got[i].ok /\ ~got[i].msg
                                ELSE got[i].c = 0 /\ ~got[i].ok /\ got[i].msg)}, got)
\* without a recorder of ours the responses stand for what was collected
Collected == IF Case.kind = "eval" THEN 1..Len(Case.out)
             ELSE IF Case.rec THEN st.recorded ELSE {Case.final[i].c : i \in 1..Len(Case.final)}
End == /\ ei = Len(Case.log) + 1
       /\ BadAll({r \in {"no-outcome"} : Case.outcome # "done"}, Case.outcome)
       /\ Case.outcome = "done" =>
            /\ BadAll(Final([st EXCEPT !.recorded = Collected], Actors(Case), Case.kind \in {"mp", "lb"}), st)
            /\ BadAll({r \in {"hang"} : Case.hang}, st)
            /\ (Case.kind = "eval" /\ ~Case.hang) => EvalOK /\ BadAll({r \in {"no-result"} : Len(Case.final) # (IF Case.broadcast THEN Cardinality(Actors(Case)) ELSE 1)}, Case.final)
            /\ (Case.kind # "eval" /\ Case.resp /\ ~Case.hang) => RespOK
            /\ (Case.kind = "eval") => BadAll({r \in {"not-started"} : StartedSet(st) # 1..Len(Case.out)}, st)
       /\ ei' = ei + 1 /\ UNCHANGED <<ci, st>>
NextCase == ei = Len(Case.log) + 2 /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ st' = Start(Cases[ci + 1])
Next == Step1 \/ End \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei = Len(Case.log) + 2 /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
