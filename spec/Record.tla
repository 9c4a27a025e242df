------------------------------- MODULE Record --------------------------------
(* What recorders attached to a driver and to the nonlinear solvers of nested groups have to receive.  The state is the
   driver's iteration number, the stack of the solves in progress with their iteration numbers, the iterations a
   run-once solver did so far, and the iterations that were completed: <<owner, coordinate>> in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ran(s) == {s[i] : i \in 1..Len(s)}
Idle(kinds) == [name |-> "", it |-> 0, on |-> TRUE, kind |-> kinds, stk |-> <<>>, cum |-> [g \in DOMAIN kinds |-> 0], done |-> <<>>]
\* a coordinate is a sequence of <<name, numbers>>
Here(s) == <<<<s.name, <<s.it>>>>>> \o [i \in 1..Len(s.stk) |-> <<s.stk[i].name, s.stk[i].n>>]
Top(s) == s.stk[Len(s.stk)]
InTop(s, g) == s.stk # <<>> /\ Top(s).g = g
SetTop(s, t) == [s EXCEPT !.stk[Len(s.stk)] = t]
Enter(s, g, name) ==
  LET first == CASE s.kind[g] = "once" -> <<s.cum[g] + 1>> [] s.kind[g] = "gs" -> <<1>> [] s.kind[g] = "newton" -> <<0, 0>>
  IN [s EXCEPT !.stk = Append(@, [g |-> g, name |-> name, n |-> first, lin |-> FALSE]), !.cum[g] = @ + 1]
Done(s, g) == [s EXCEPT !.done = Append(@, <<g, Here(s)>>)]
\* the children were swept
Sweep(s, g) == IF ~InTop(s, g) \/ s.kind[g] = "newton" THEN s
               ELSE LET d == Done(s, g) IN IF s.kind[g] = "gs" THEN [d EXCEPT !.stk[Len(s.stk)].n[1] = @ + 1] ELSE d
\* Newton linearizes at the start of an iteration; after that each evaluation of the residuals ends one (of a line search)
Lin(s, g) == IF ~InTop(s, g) \/ s.kind[g] # "newton" THEN s
             ELSE SetTop(s, [Top(s) EXCEPT !.lin = TRUE, !.n = <<@[1] + 1, 0>>])
Apply(s, g) == IF ~InTop(s, g) \/ s.kind[g] # "newton" \/ ~Top(s).lin THEN s
               ELSE [Done(s, g) EXCEPT !.stk[Len(s.stk)].n[2] = @ + 1]
\* the solve of g ended; with the root's solve an iteration of the driver ends
Exit(s, g) == LET t == [s EXCEPT !.stk = Front(@)]
              IN IF t.stk = <<>> /\ t.on THEN [Done(t, "#driver") EXCEPT !.it = @ + 1] ELSE t

\* ---- shell style patterns: * ? [seq] [!seq] ----
Ch(s, i) == SubSeq(s, i, i)
Tl(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Codes == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"} |->
            CHOOSE k \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", k, k) = c] @@
         [c \in {"0","1","2","3","4","5","6","7","8","9"} |-> 100 + CHOOSE k \in 1..10 : SubSeq("0123456789", k, k) = c]
Between(c, a, b) == c \in DOMAIN Codes /\ a \in DOMAIN Codes /\ b \in DOMAIN Codes /\ Codes[a] <= Codes[c] /\ Codes[c] <= Codes[b]
RECURSIVE InSet(_, _)
InSet(c, body) == IF body = "" THEN FALSE
                  ELSE IF Len(body) >= 3 /\ Ch(body, 2) = "-" THEN Between(c, Ch(body, 1), Ch(body, 3)) \/ InSet(c, Tl(body, 4))
                  ELSE Ch(body, 1) = c \/ InSet(c, Tl(body, 2))
RECURSIVE Match(_, _)
Match(p, s) ==
  IF p = "" THEN s = ""
  ELSE CASE Ch(p, 1) = "*" -> Match(Tl(p, 2), s) \/ (s # "" /\ Match(p, Tl(s, 2)))
         [] Ch(p, 1) = "?" -> s # "" /\ Match(Tl(p, 2), Tl(s, 2))
         [] Ch(p, 1) = "[" ->
              LET e == CHOOSE k \in 2..Len(p) : Ch(p, k) = "]" /\ \A j \in 2..(k - 1) : Ch(p, j) # "]"
                  neg == Ch(p, 2) = "!"
              IN s # "" /\ (InSet(Ch(s, 1), SubSeq(p, IF neg THEN 3 ELSE 2, e - 1)) # neg) /\ Match(Tl(p, e + 1), Tl(s, 2))
         [] OTHER -> s # "" /\ Ch(s, 1) = Ch(p, 1) /\ Match(Tl(p, 2), Tl(s, 2))
Wanted(n, inc, exc) == (\E i \in 1..Len(inc) : Match(inc[i], n)) /\ ~\E i \in 1..Len(exc) : Match(exc[i], n)
Pick(f, inc, exc) == [n \in {m \in DOMAIN f : Wanted(m, inc, exc)} |-> f[n]]
=============================================================================
