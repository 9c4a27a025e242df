------------------------------- MODULE ExtCode -------------------------------
(* The contract under which an external code is run (C19).
   cfg:  cmd ("given" | "empty" | "unknown"), need, give (sets of files), limit (ms, 0: none), hard
   b:    what the command does: dur (ms it takes by itself), status (exit status, negative: killed by that signal),
         makes (files it writes before it takes its time), later (files it writes at the end)
   A run either never starts, is stopped because it exceeds its limit, or ends by itself. *)
EXTENDS Integers, FiniteSets
Starts(cfg, files) == cfg.cmd = "given" /\ cfg.need \subseteq files
\* completion is looked for at intervals of poll ms, so a limit may be exceeded by a little more than two of them
TimedOut(cfg, b) == cfg.limit > 0 /\ b.dur > cfg.limit
Files(cfg, files, b) == IF ~Starts(cfg, files) THEN files
                        ELSE files \cup b.makes \cup (IF TimedOut(cfg, b) THEN {} ELSE b.later)
Hardness(cfg) == IF cfg.hard THEN "RuntimeError" ELSE "AnalysisError"
Succeeds(cfg, files, b) == /\ Starts(cfg, files) /\ ~TimedOut(cfg, b) /\ b.status = 0
                           /\ cfg.give \subseteq Files(cfg, files, b)
\* error raised: "" is none, "any" some error
Raises(cfg, files, b) ==
  IF cfg.cmd # "given" THEN "any"
  ELSE IF ~Starts(cfg, files) THEN Hardness(cfg)
  ELSE IF TimedOut(cfg, b) THEN "AnalysisError"
  ELSE IF Succeeds(cfg, files, b) THEN "" ELSE Hardness(cfg)
\* the return code is the status of this run, or no status at all
CodeOK(cfg, files, b, rc) == IF Starts(cfg, files) /\ ~TimedOut(cfg, b) THEN rc = b.status ELSE rc \notin -64..255
=============================================================================
