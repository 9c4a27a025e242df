------------------------------ MODULE DoeTrace ------------------------------
(* Runs of the real drivers judged against Doe. *)
EXTENDS Doe, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci
Case == Cases[ci]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Tol == 2
Plan(p) == CASE Case.driver = "full"    -> FullFactorial(p, Case.lo, Case.hi, Case.n, Tol)
             [] Case.driver \in {"lhc", "olhc"} -> LatinHypercube(p, Case.lo, Case.hi, Case.n, Tol)
             [] Case.driver = "uniform" -> Within(p, Case.lo, Case.hi, Case.n, Tol)
             [] Case.driver = "case"    -> p = Case.given \/ (Case.par > 1 /\ Len(p) = Len(Case.given)
                                      /\ \A c \in {p[i] : i \in 1..Len(p)} \cup {Case.given[i] : i \in 1..Len(Case.given)} :
                                           Cardinality({i \in 1..Len(p) : p[i] = c}) = Cardinality({i \in 1..Len(p) : Case.given[i] = c}))
\* run k of the model and response k belong together
RespOK(runs, resp, fails) ==
  /\ Len(resp) = Len(runs)
  /\ \A k \in 1..Len(runs) : /\ resp[k].x = runs[k].x
                             /\ resp[k].ok = ~runs[k].fail /\ resp[k].msg = runs[k].fail
                             /\ ~runs[k].fail => resp[k].y = runs[k].y
Judge ==
  IF Case.outcome # "done" THEN Bad("C11:no-outcome", Case.outcome)
  ELSE /\ \A q \in 1..Len(Case.studies) :
            LET s == Case.studies[q]
            IN /\ Chk(Plan([r \in 1..Len(s.runs) |-> s.runs[r].e]), "C11:plan", [r \in 1..Min2(Len(s.runs), 12) |-> s.runs[r].e])
               /\ Chk(\A r \in 1..Len(s.runs) : s.runs[r].rest, "C11:other-values", s.runs)
               /\ Case.resp => Chk(RespOK(s.runs, s.resp, s), "C11:responses", <<s.runs, s.resp>>)
       /\ Case.seeded => Chk(\A q \in 2..Len(Case.studies) : [r \in 1..Len(Case.studies[q].runs) |-> Case.studies[q].runs[r].x]
                                                          = [r \in 1..Len(Case.studies[1].runs) |-> Case.studies[1].runs[r].x],
                              "C11:seed", <<>>)
Init == ci = 0
Next == ci < Len(Cases) /\ ci' = ci + 1 /\ (Judge)'
Spec == Init /\ [][Next]_ci
Mark == ci = Len(Cases) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == ci
=============================================================================
