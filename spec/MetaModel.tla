------------------------------ MODULE MetaModel ------------------------------
(* A surrogate component: for every fidelity a current training set (one sequence of flattened points per input and
   output), the points used in the last training, and whether training is due. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* st: [cur |-> [fi |-> [name |-> seq of points]], keptX |-> [fi |-> rows], keptY |-> [out |-> [fi |-> rows]], due, warm, n]
RECURSIVE Cat(_, _)
Cat(f, names) == IF names = <<>> THEN <<>> ELSE f[Head(names)] \o Cat(f, Tail(names))
\* the rows of the training inputs: the columns of all inputs in declaration order
Rows(cur, names, n) == [r \in 1..n |-> Cat([x \in DOMAIN cur |-> IF r <= Len(cur[x]) THEN cur[x][r] ELSE <<>>], names)]
Equal(cur) == \A a, b \in DOMAIN cur : Len(cur[a]) = Len(cur[b])
Refused(st) == \E fi \in DOMAIN st.cur : ~Equal(st.cur[fi])
Num(cur) == LET a == CHOOSE a \in DOMAIN cur : TRUE IN Len(cur[a])
NewX(st, c, fi) == (IF st.warm THEN st.keptX[fi] ELSE <<>>) \o Rows(st.cur[fi], c.ins, Num(st.cur[fi]))
NewY(st, c, o, fi) == (IF st.warm THEN st.keptY[o][fi] ELSE <<>>) \o Rows(st.cur[fi], <<o>>, Num(st.cur[fi]))
Train(st, c) == [st EXCEPT !.keptX = [fi \in DOMAIN st.cur |-> NewX(st, c, fi)],
                           !.keptY = [o \in {c.outs[i] : i \in 1..Len(c.outs)} |-> [fi \in DOMAIN st.cur |-> NewY(st, c, o, fi)]],
                           !.due = FALSE, !.n = @ + 1]
=============================================================================
