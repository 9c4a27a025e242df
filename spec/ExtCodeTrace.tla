---------------------------- MODULE ExtCodeTrace ----------------------------
(* Histories of runs of a real ExternalCode, judged against ExtCode. *)
EXTENDS ExtCode, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei
vars == <<ci, ei>>
Case == Cases[ci]
Ev == Case.ev[ei]
Ran(s) == {s[i] : i \in DOMAIN s}
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
Init == ci = 1 /\ ei = 1
Run ==
  LET cfg == [cmd |-> Ev.cfg.cmd, need |-> Ran(Ev.cfg.need), give |-> Ran(Ev.cfg.give), limit |-> Ev.cfg.limit, hard |-> Ev.cfg.hard]
      b == [dur |-> Ev.b.dur, status |-> Ev.b.status, makes |-> Ran(Ev.b.makes), later |-> Ran(Ev.b.later)]
      files == Ran(Ev.before)
      started == Starts(cfg, files)
      late == started /\ TimedOut(cfg, b)
      ended == started /\ ~late
      want == Raises(cfg, files, b)
      about == [got |-> Ev.exc, want |-> want, rc |-> Ev.rc, cfg |-> Ev.cfg, b |-> Ev.b, before |-> Ev.before, stub |-> Ev.stub, helper |-> Ev.helper]
  IN /\ Chk(IF want = "any" THEN Ev.exc # "" ELSE Ev.exc = want, "C19:error", about)
     /\ Chk(CodeOK(cfg, files, b, Ev.rc), "C19:return-code", about)
     /\ Chk(IF ended THEN Ev.started = 1 ELSE IF late THEN Ev.started <= 1 ELSE Ev.started = 0, "C19:started", <<Ev.started, about>>)
     \* a command that is stopped may have been stopped before it wrote anything
     /\ Chk(IF late THEN files \subseteq Ran(Ev.after) /\ Ran(Ev.after) \subseteq Files(cfg, files, b)
            ELSE Ran(Ev.after) = Files(cfg, files, b), "C19:files", <<Ev.after, about>>)
     /\ (Ev.saw # <<>> \/ ended) => /\ Chk(Len(Ev.saw) = 3 /\ Ev.saw[1] = Ev.want[1] /\ Ev.saw[2] = Ev.want[2], "C19:environment", <<Ev.saw, Ev.want>>)
                                    /\ Chk(Len(Ev.saw) = 3 /\ Ev.saw[3] = Ev.want[3], "C19:directory", <<Ev.saw, Ev.want>>)
     /\ ended => \A i \in DOMAIN Ev.streams : Chk(Ev.streams[i][2] = Ev.streams[i][3], "C19:streams", Ev.streams[i])
     /\ Chk(Ev.left = 0, "C19:survivor", about)
     \* (grace and polling included; the command by itself would have taken much longer)
     /\ (late /\ b.dur > 20000) => Chk(Ev.took < 20000, "C19:not-stopped", <<Ev.took, about>>)
     /\ Chk(Ev.parent, "C19:parent-changed", about)
Act == IF Case.outcome # "done" THEN Bad("C19:no-outcome", Case.outcome) /\ ei' = Len(Case.ev) + 2
       ELSE IF ei <= Len(Case.ev) THEN Run /\ ei' = ei + 1 ELSE ei' = ei + 1
NextCase == ei > Len(Case.ev) + 1 /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1
Next == (ei <= Len(Case.ev) + 1 /\ Act /\ UNCHANGED ci) \/ NextCase
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) + 1 /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
