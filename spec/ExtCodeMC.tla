------------------------------ MODULE ExtCodeMC ------------------------------
(* The run as a process: inputs are checked, the command is started as the leader of a group, its end is polled for, it is
   told to end when the limit has passed, and what is left of the group is killed.  Time passes in ticks; the leader ends
   at its own time, and its helper process never does by itself.  Either may ignore being told to end. *)
EXTENDS ExtCode, Sequences, TLC
CONSTANTS MaxT, Poll, Fix      \* Fix = FALSE: the group is told to end and then forgotten
F == {"in", "out"}
VARIABLES cfg, b, stub, files0, files, phase, t, npoll, next, leader, helper, res, rc, grace
vars == <<cfg, b, stub, files0, files, phase, t, npoll, next, leader, helper, res, rc, grace>>
NoCfg == [cmd |-> "empty", need |-> {}, give |-> {}, limit |-> 0, hard |-> TRUE]
NoB == [dur |-> 0, status |-> 0, makes |-> {}, later |-> {}]
Init == /\ cfg = NoCfg /\ b = NoB /\ stub = <<FALSE, FALSE, FALSE>> /\ files0 = {} /\ files = {} /\ phase = "idle" /\ t = 0 /\ npoll = 0 /\ next = 0
        /\ leader = "none" /\ helper = "none" /\ res = "none" /\ rc = -12345678 /\ grace = 0
Finish(r, c) == phase' = "done" /\ res' = r /\ rc' = c
Begin == /\ phase = "idle"
         /\ \E c \in [cmd : {"given", "empty", "unknown"}, need : {{}, {"in"}}, give : {{}, {"out"}}, limit : {0, 2, 3}, hard : BOOLEAN],
               d \in 0..MaxT, s \in {0, 1, -9}, m \in {{}, {"out"}}, l \in {{}, {"out"}}, f \in SUBSET F, st \in BOOLEAN \X BOOLEAN \X BOOLEAN :
              /\ cfg' = c /\ b' = [dur |-> d, status |-> s, makes |-> m, later |-> l] /\ files0' = f /\ files' = f /\ stub' = st
         /\ phase' = "check" /\ UNCHANGED <<t, npoll, next, leader, helper, res, rc, grace>>
Check == /\ phase = "check"
         /\ IF cfg.cmd = "empty" THEN Finish("ValueError", -12345678) /\ UNCHANGED <<files, leader, helper, npoll, next>>
            ELSE IF ~(cfg.need \subseteq files) THEN Finish(Hardness(cfg), -999999) /\ UNCHANGED <<files, leader, helper, npoll, next>>
            ELSE IF cfg.cmd = "unknown" THEN Finish("ValueError", -999999) /\ UNCHANGED <<files, leader, helper, npoll, next>>
            ELSE /\ leader' = "alive" /\ helper' = (IF stub[3] THEN "alive" ELSE "none") /\ files' = files \cup b.makes
                 /\ npoll' = cfg.limit \div Poll + 1 /\ next' = Poll /\ phase' = "wait" /\ UNCHANGED <<res, rc>>
         /\ UNCHANGED <<cfg, b, stub, files0, t, grace>>
\* time passes; a leader whose time has come ends before anything else happens
LeaderEnds == /\ leader = "alive" /\ t >= b.dur /\ phase \in {"wait", "grace"}
              /\ leader' = "ended" /\ files' = files \cup b.later
              /\ UNCHANGED <<cfg, b, stub, files0, phase, t, npoll, next, helper, res, rc, grace>>
Tick == /\ phase \in {"wait"} /\ t < next /\ ~(leader = "alive" /\ t >= b.dur)
        /\ t' = t + 1 /\ UNCHANGED <<cfg, b, stub, files0, files, phase, npoll, next, leader, helper, res, rc, grace>>
PollStep == /\ phase = "wait" /\ t = next /\ ~(leader = "alive" /\ t >= b.dur)
            /\ IF leader = "ended" THEN phase' = "after" /\ UNCHANGED <<npoll, next, leader, helper, grace>>
               ELSE IF t > Poll /\ cfg.limit > 0 /\ npoll - 1 < 0
                    THEN /\ leader' = (IF stub[1] THEN "alive" ELSE "killed") /\ helper' = (IF helper = "alive" /\ ~stub[2] THEN "none" ELSE helper)
                         /\ phase' = (IF Fix THEN "grace" ELSE "late") /\ grace' = 2 /\ UNCHANGED <<npoll, next>>
                    ELSE npoll' = (IF t > Poll THEN npoll - 1 ELSE npoll) /\ next' = next + Poll /\ UNCHANGED <<phase, leader, helper, grace>>
            /\ UNCHANGED <<cfg, b, stub, files0, files, t, res, rc>>
Grace == /\ phase = "grace"
         /\ IF leader = "alive" /\ grace > 0 THEN grace' = grace - 1 /\ UNCHANGED <<phase, leader, helper>>
            ELSE phase' = "late" /\ leader' = (IF leader = "alive" THEN "killed" ELSE leader) /\ helper' = "none" /\ UNCHANGED grace
         /\ UNCHANGED <<cfg, b, stub, files0, files, t, npoll, next, res, rc>>
Late == phase = "late" /\ Finish("AnalysisError", -999999) /\ UNCHANGED <<cfg, b, stub, files0, files, t, npoll, next, leader, helper, grace>>
After == /\ phase = "after"
         /\ Finish(IF b.status # 0 \/ ~(cfg.give \subseteq files) THEN Hardness(cfg) ELSE "", b.status)
         /\ UNCHANGED <<cfg, b, stub, files0, files, t, npoll, next, leader, helper, grace>>
Next == Begin \/ Check \/ LeaderEnds \/ Tick \/ PollStep \/ Grace \/ Late \/ After
Spec == Init /\ [][Next]_vars
\* a command that takes up to three intervals longer than its limit may still be seen to end
Clear == cfg.limit = 0 \/ b.dur <= cfg.limit \/ b.dur > cfg.limit + 3 * Poll
\* a stubborn leader may also end by itself while it is given the grace
Contract == (phase = "done" /\ Clear) =>
   /\ LET want == Raises(cfg, files0, b) IN IF want = "any" THEN res \notin {"", "none"} ELSE res = want
   /\ CodeOK(cfg, files0, b, rc)
   /\ (~TimedOut(cfg, b) \/ ~Starts(cfg, files0)) => files = Files(cfg, files0, b)
NoSurvivor == (phase = "done" /\ Starts(cfg, files0) /\ res = "AnalysisError" /\ rc = -999999) => leader # "alive" /\ helper # "alive"
Bounded == phase = "done" /\ cfg.limit > 0 => t <= cfg.limit + 3 * Poll
=============================================================================
