------------------------------ MODULE FileWrap ------------------------------
(* Templates and parsed files as sequences of lines (strings ending in a newline), a current row and whether an anchor
   was marked.  Fields of a line are the maximal runs of characters that are not delimiters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Ch(s, i) == SubSeq(s, i, i)
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)
NL == "\n"
IsDelim(c, delims) == c \in delims \/ c = NL

RECURSIVE FieldsFrom(_, _, _)
\* sequence of <<start, end>>
FieldsFrom(s, i, delims) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsDelim(Ch(s, i), delims) THEN FieldsFrom(s, i + 1, delims)
  ELSE LET stops == {k \in i..Len(s) : IsDelim(Ch(s, k), delims)}
           e == IF stops = {} THEN Len(s) ELSE (CHOOSE k \in stops : \A m \in stops : k <= m) - 1
       IN <<<<i, e>>>> \o FieldsFrom(s, e + 1, delims)
Fields(s, delims) == FieldsFrom(s, 1, delims)
Word(s, f) == Sub(s, f[1], f[2])
Words(s, delims) == LET f == Fields(s, delims) IN [i \in 1..Len(f) |-> Word(s, f[i])]

Has(s, t) == Len(t) = 0 \/ \E i \in 1..(Len(s) - Len(t) + 1) : Sub(s, i, i + Len(t) - 1) = t

\* rows of the lines (in the given order of rows) containing t
Rows(lines, order, t) == SelectSeq(order, LAMBDA r : Has(lines[r], t))

Up(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]
Down(a, b) == [i \in 1..(IF a < b THEN 0 ELSE a - b + 1) |-> a - i + 1]

\* rows are 1-based here.  An occurrence > 0 counts lines forward from the current position (after the line of the
\* current anchor), < 0 backward from the end (once anchored, the
\* last line of the file is left out: test_output_parse_same_anchors asks for that).  0 when not found.
Find(lines, row, anchored, t, occ) ==
  LET order == IF occ > 0 THEN Up(IF anchored THEN row + 1 ELSE row, Len(lines))
               ELSE Down(IF anchored THEN Len(lines) - 1 ELSE Len(lines), 1)
      hits == Rows(lines, order, t)
      k == IF occ > 0 THEN occ ELSE -occ
  IN IF occ = 0 \/ k > Len(hits) THEN 0 ELSE hits[k]
FindKey(lines, row, t, occ) ==
  LET hits == Rows(lines, IF occ > 0 THEN Up(row, Len(lines)) ELSE Down(Len(lines), row), t)
      k == IF occ > 0 THEN occ ELSE -occ
  IN IF occ = 0 \/ k > Len(hits) THEN 0 ELSE hits[k]

NumChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "-", ".", "e", "E", "i", "n", "f", "a", "N", "I"}
NumEnd(s, i) == LET stops == {k \in i..Len(s) : Ch(s, k) \notin NumChars}
                IN IF stops = {} THEN Len(s) ELSE (CHOOSE k \in stops : \A m \in stops : k <= m) - 1

RECURSIVE Written(_, _, _, _, _, _)
\* new (from p) is old (from o) with the fields fs replaced by the numbers vs (canonical forms), then the numbers left
\* over, each after sep, then a newline
Written(new, p, old, fs, o, st) ==
  IF fs # <<>> /\ st.vs # <<>>
  THEN LET f == Head(fs) lit == Sub(old, o, f[1] - 1)
           q == p + Len(lit) e == NumEnd(new, q)
       IN /\ Sub(new, p, q - 1) = lit /\ e >= q
          /\ Sub(new, q, e) \in DOMAIN st.canon /\ st.canon[Sub(new, q, e)] = Head(st.vs)
          /\ Written(new, e + 1, old, Tail(fs), f[2] + 1, [st EXCEPT !.vs = Tail(@)])
  ELSE IF st.vs = <<>> \/ ~st.last THEN Sub(new, p, Len(new)) = Sub(old, o, Len(old))
  ELSE \* overflow at the end of the last line
       LET body == Sub(old, o, Len(old)) rest == IF body # "" /\ Ch(body, Len(body)) = NL THEN Sub(body, 1, Len(body) - 1) ELSE body
           RECURSIVE Tail_(_, _)
           Tail_(i, vs) == IF vs = <<>> THEN Sub(new, i, Len(new)) = NL
                           ELSE LET q == i + Len(st.sep) e == NumEnd(new, q)
                                IN Sub(new, i, q - 1) = st.sep /\ e >= q /\ Sub(new, q, e) \in DOMAIN st.canon
                                   /\ st.canon[Sub(new, q, e)] = Head(vs) /\ Tail_(e + 1, Tail(vs))
       IN Sub(new, p, p + Len(rest) - 1) = rest /\ Tail_(p + Len(rest), st.vs)

RECURSIVE Repl(_, _, _)
Repl(s, key, by) == IF Len(s) < Len(key) THEN s
                    ELSE IF Sub(s, 1, Len(key)) = key THEN by \o Repl(Sub(s, Len(key) + 1, Len(s)), key, by)
                    ELSE Ch(s, 1) \o Repl(Sub(s, 2, Len(s)), key, by)

\* lines as the parser sees them: comment lines dropped, ends cut
Cut(s, c) == LET ps == {i \in 1..Len(s) : Ch(s, i) = c}
             IN IF c = "" \/ ps = {} THEN s ELSE Sub(s, 1, (CHOOSE i \in ps : \A j \in ps : i <= j) - 1)
Seen(lines, full, eol) == LET kept == SelectSeq(lines, LAMBDA s : full = "" \/ Ch(s, 1) # full)
                          IN [i \in 1..Len(kept) |-> Cut(kept[i], eol)]
=============================================================================
