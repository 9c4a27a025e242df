----------------------------- MODULE DispatchMC -----------------------------
(* The protocols themselves, explored exhaustively against the rules of Dispatch.
   "mp": one task queue, one result queue, each writer with a buffer that a feeder empties at any later time;
   "lb": channels between the master and every worker.
   Every action raises an event; bad collects the rules broken. *)
EXTENDS Dispatch
CONSTANTS NC, NW, Proto
Workers == 1..NW
VARIABLES st, mpc, next, active, terminated, tbuf, tq, dbuf, dq, wpc, wcase, wdead, stops, bad
vars == <<st, mpc, next, active, terminated, tbuf, tq, dbuf, dq, wpc, wcase, wdead, stops, bad>>
Outs == [1..NC -> {"ok", "fail", "fatal", "bad"}]
Ev(e) == /\ bad' = bad \cup Guard(st, e) /\ st' = Step(st, e)
Ev2(e, f) == LET s1 == Step(st, e) IN bad' = bad \cup Guard(st, e) \cup Guard(s1, f) /\ st' = Step(s1, f)
NoEv == UNCHANGED <<st, bad>>
Init == /\ \E o \in Outs : st = S0(o, Workers)
        /\ mpc = "seed" /\ next = 1 /\ active = 0 /\ terminated = FALSE
        /\ tbuf = <<>> /\ tq = <<>> /\ dbuf = [w \in Workers |-> <<>>] /\ dq = <<>>
        /\ wpc = [w \in Workers |-> "get"] /\ wcase = [w \in Workers |-> 0] /\ wdead = [w \in Workers |-> FALSE]
        /\ stops = 0 /\ bad = {}
\* master: a seed per worker, to nobody in particular (mp) or to worker number next (lb)
To(w, c) == [to |-> IF Proto = "mp" THEN 0 ELSE w, c |-> c]
Seed == /\ mpc = "seed"
        /\ IF next <= NC /\ next <= NW
           THEN /\ Ev([op |-> "take", c |-> next]) /\ tbuf' = Append(tbuf, To(next, next))
                /\ next' = next + 1 /\ active' = active + 1 /\ UNCHANGED <<mpc, stops>>
           ELSE /\ mpc' = (IF next > NC THEN "stop" ELSE "loop") /\ NoEv /\ UNCHANGED <<tbuf, next, active, stops>>
        /\ UNCHANGED <<terminated, tq, dbuf, dq, wpc, wcase, wdead>>
Rec(m) == [op |-> "rec", c |-> m.c, vals |-> m.vals = m.c, success |-> st.out[m.c] = "ok", msg |-> st.out[m.c] # "ok", coord |-> m.c]
Loop == /\ mpc = "loop"
        /\ IF active = 0 THEN mpc' = "stop" /\ NoEv /\ UNCHANGED <<tbuf, next, active, dq>>
           ELSE /\ dq # <<>> /\ dq' = Tail(dq)
                /\ LET m == Head(dq) h == [op |-> "heard", w |-> m.w]
                   IN IF m.term THEN /\ Ev(h) /\ active' = active - 1 /\ mpc' = "stop" /\ UNCHANGED <<tbuf, next>>
                      ELSE IF next <= NC
                      THEN /\ LET s1 == Step(st, h) s2 == Step(s1, Rec(m)) tk == [op |-> "take", c |-> next]
                              IN bad' = bad \cup Guard(st, h) \cup Guard(s1, Rec(m)) \cup Guard(s2, tk) /\ st' = Step(s2, tk)
                           /\ tbuf' = Append(tbuf, To(m.w, next)) /\ next' = next + 1 /\ UNCHANGED <<active, mpc>>
                      ELSE /\ Ev2(h, Rec(m)) /\ active' = active - 1 /\ mpc' = "stop" /\ UNCHANGED <<tbuf, next>>
        /\ UNCHANGED <<terminated, tq, dbuf, wpc, wcase, wdead, stops>>
\* lb drains before it tells the workers to stop, mp afterwards
Stop == /\ mpc = "stop" /\ (Proto = "lb" => active = 0)
        /\ IF stops < NW THEN tbuf' = Append(tbuf, To(stops + 1, 0)) /\ stops' = stops + 1 /\ UNCHANGED mpc
           ELSE mpc' = "drain" /\ UNCHANGED <<tbuf, stops>>
        /\ NoEv /\ UNCHANGED <<next, active, terminated, tq, dbuf, dq, wpc, wcase, wdead>>
Drain == /\ mpc = "drain" \/ (mpc = "stop" /\ Proto = "lb" /\ active > 0)
         /\ IF active = 0 THEN mpc' = "join" /\ NoEv /\ UNCHANGED <<active, dq>>
            ELSE /\ dq # <<>> /\ dq' = Tail(dq) /\ active' = active - 1 /\ UNCHANGED mpc
                 /\ LET m == Head(dq) h == [op |-> "heard", w |-> m.w]
                    IN IF m.term THEN Ev(h) ELSE Ev2(h, Rec(m))
         /\ UNCHANGED <<next, terminated, tbuf, tq, dbuf, wpc, wcase, wdead, stops>>
Join == /\ mpc = "join" /\ \A w \in Workers : wpc[w] = "end" /\ dbuf[w] = <<>>
        /\ mpc' = "end" /\ NoEv /\ UNCHANGED <<next, active, terminated, tbuf, tq, dbuf, dq, wpc, wcase, wdead, stops>>
\* feeders
FeedT == /\ tbuf # <<>> /\ tq' = Append(tq, Head(tbuf)) /\ tbuf' = Tail(tbuf)
         /\ NoEv /\ UNCHANGED <<mpc, next, active, terminated, dbuf, dq, wpc, wcase, wdead, stops>>
FeedD(w) == /\ dbuf[w] # <<>> /\ dq' = Append(dq, Head(dbuf[w])) /\ dbuf' = [dbuf EXCEPT ![w] = Tail(@)]
            /\ NoEv /\ UNCHANGED <<mpc, next, active, terminated, tbuf, tq, wpc, wcase, wdead, stops>>
Mine(w) == {i \in 1..Len(tq) : IF Proto = "mp" THEN i = 1 ELSE tq[i].to = w /\ \A j \in 1..(i-1) : tq[j].to # w}
Get(w) == /\ wpc[w] = "get"
          /\ \E i \in Mine(w) :
               /\ tq' = SubSeq(tq, 1, i - 1) \o SubSeq(tq, i + 1, Len(tq))
               /\ LET c == tq[i].c
                  IN IF c = 0 THEN wpc' = [wpc EXCEPT ![w] = "end"] /\ NoEv /\ UNCHANGED <<wcase, dbuf, wdead>>
                     ELSE IF wdead[w] THEN \* answer without running
                          /\ dbuf' = [dbuf EXCEPT ![w] = Append(@, [w |-> w, c |-> c, term |-> TRUE, vals |-> 0])]
                          /\ NoEv /\ UNCHANGED <<wpc, wcase, wdead>>
                     ELSE /\ Ev([op |-> "start", w |-> w, c |-> c, grp |-> {w}])
                          /\ wcase' = [wcase EXCEPT ![w] = c] /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ UNCHANGED <<dbuf, wdead>>
          /\ UNCHANGED <<mpc, next, active, terminated, tbuf, dq, stops>>
Done(w) == /\ wpc[w] = "run" /\ wpc' = [wpc EXCEPT ![w] = "get"]
           /\ LET c == wcase[w] f == Fatal(st.out[c])
              IN /\ dbuf' = [dbuf EXCEPT ![w] = Append(@, [w |-> w, c |-> c, term |-> f, vals |-> c])]
                 /\ wdead' = [wdead EXCEPT ![w] = @ \/ f]
           /\ NoEv /\ UNCHANGED <<mpc, next, active, terminated, tbuf, tq, dq, wcase, stops>>
Next == Seed \/ Loop \/ Stop \/ Drain \/ Join \/ FeedT \/ (\E w \in Workers : FeedD(w) \/ Get(w) \/ Done(w))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllEnded == mpc = "end"
FinalSt == [st EXCEPT !.ended = Workers]
\* every behaviour ends, without a broken rule, with everything collected
RulesKept == bad = {}
NoHang == ENABLED Next \/ AllEnded
Collected == AllEnded => Final(FinalSt, Workers, TRUE) = {}
Terminates == <>AllEnded
=============================================================================
