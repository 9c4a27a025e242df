--------------------------- MODULE FileWrapTrace ---------------------------
(* Histories of the real InputFileGenerator (the generated file is read after every operation) and FileParser. *)
EXTENDS FileWrap, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, lines, row, anch, delims
vars == <<ci, ei, lines, row, anch, delims>>
Case == Cases[ci]
Ev == Case.ev[ei]
Bad(cl, x) == PrintT(<<"BAD", ToJson(<<Case.id, cl, x>>)>>)
Chk(c, cl, x) == IF c THEN TRUE ELSE Bad(cl, x)
StartLines(c) == IF Cases[c].kind = "gen" THEN Cases[c].lines ELSE Seen(Cases[c].lines, Cases[c].full, Cases[c].eol)
StartDelims(c) == IF Cases[c].kind = "gen" THEN {" "} ELSE {" ", "\t"}
Init == ci = 1 /\ ei = 1 /\ lines = StartLines(1) /\ row = 1 /\ anch = FALSE /\ delims = StartDelims(1)
Canon(w) == IF w \in DOMAIN Case.canon THEN Case.canon[w] ELSE [t |-> "s", v |-> w, f |-> ""]
VEq(a, b) == a.t = b.t /\ a.v = b.v
Here == row + Ev.row
InFile(r) == r >= 1 /\ r <= Len(lines)
\* the file after the operation: only the given rows may differ
Rest(rs) == Len(Ev.lines) = Len(lines) /\ \A i \in 1..Len(lines) : i \in rs \/ Ev.lines[i] = lines[i]

Anchor == /\ LET r == Find(lines, row, anch, Ev.text, Ev.occ)
             IN /\ Chk(Ev.ok = (Ev.okocc /\ r # 0), IF Ev.ok THEN "C18:anchor-found" ELSE "C18:anchor-missed", [t |-> Ev.text, o |-> Ev.occ])
                /\ IF Ev.okocc /\ r # 0 THEN row' = r /\ anch' = TRUE ELSE UNCHANGED <<row, anch>>
          /\ UNCHANGED <<lines, delims>>
Reset == row' = 1 /\ anch' = FALSE /\ UNCHANGED <<lines, delims>>
Delims == delims' = {Ev.d[i] : i \in 1..Len(Ev.d)} /\ UNCHANGED <<lines, row, anch>>
Keep == UNCHANGED <<row, anch, delims>>

\* ---- generator ----
ErrKeeps == Chk(Ev.lines = lines, "C18:error-changed-file", Ev.op)
WVar ==
  /\ IF ~Ev.ok \/ ~InFile(Here) THEN Bad("C18:write-failed", <<Here, Ev.field>>)
     ELSE LET old == lines[Here] new == Ev.lines[Here] fs == Fields(old, delims)
              same == Rest({Here})
          IN IF ~same THEN Bad("C18:other-line", Here)
             ELSE IF Ev.field < 1 \/ Ev.field > Len(fs) THEN Chk(new = old, "C18:no-such-field", new)
             ELSE LET f == fs[Ev.field]
                      n == Len(new) - (Len(old) - f[2])
                      x == Sub(new, f[1], n)
                  IN Chk(Sub(new, 1, f[1] - 1) = Sub(old, 1, f[1] - 1)
                         /\ Sub(new, n + 1, Len(new)) = Sub(old, f[2] + 1, Len(old))
                         /\ n >= f[1] - 1
                         /\ IF Ev.val.t = "s" THEN x = Ev.val.v ELSE VEq(Canon(x), Ev.val), "C18:field", [old |-> old, new |-> new, x |-> x])
  /\ lines' = Ev.lines /\ Keep
\* fields addressed on each of the rows r1..r2
Addr(r, r1, r2) ==
  LET fs == Fields(lines[r], delims)
      a == IF r = r1 THEN Ev.f1 ELSE 1
      b == IF r = r2 THEN (IF Ev.f2 < Len(fs) THEN Ev.f2 ELSE Len(fs)) ELSE Len(fs)
  IN IF a > b THEN <<>> ELSE SubSeq(fs, a, b)
WArr ==
  LET r1 == row + Ev.r1 r2 == row + Ev.r2
      RECURSIVE Go(_, _)
      Go(r, vs) == IF r > r2 THEN TRUE
                   ELSE LET fs == Addr(r, r1, r2) k == IF Len(vs) < Len(fs) THEN Len(vs) ELSE Len(fs)
                        IN /\ Written(Ev.lines[r], 1, lines[r], fs, 1,
                                      [vs |-> IF r = r2 THEN vs ELSE SubSeq(vs, 1, k), canon |-> Case.canon, sep |-> Ev.sep, last |-> r = r2])
                           /\ Go(r + 1, SubSeq(vs, k + 1, Len(vs)))
  IN /\ IF ~Ev.ok \/ ~InFile(r1) \/ ~InFile(r2) THEN Bad("C18:write-failed", <<r1, r2>>)
        ELSE IF ~Rest(r1..r2) THEN Bad("C18:other-line", r1)
        ELSE Chk(Go(r1, Ev.vals), "C18:array", [old |-> SubSeq(lines, r1, r2), new |-> SubSeq(Ev.lines, r1, r2)])
     /\ lines' = Ev.lines /\ Keep
WArr2 ==
  LET r1 == row + Ev.r1 r2 == row + Ev.r2
      ok(r) == LET fs == Fields(lines[r], delims) b == IF Ev.f2 < Len(fs) THEN Ev.f2 ELSE Len(fs)
               IN Written(Ev.lines[r], 1, lines[r], IF Ev.f1 > b THEN <<>> ELSE SubSeq(fs, Ev.f1, b), 1,
                          [vs |-> Ev.vals[r - r1 + 1], canon |-> Case.canon, sep |-> "", last |-> FALSE])
  IN /\ IF ~Ev.ok \/ ~InFile(r1) \/ ~InFile(r2) THEN Bad("C18:write-failed", <<r1, r2>>)
        ELSE IF ~Rest(r1..r2) THEN Bad("C18:other-line", r1)
        ELSE Chk(\A r \in r1..r2 : ok(r), "C18:array2", [old |-> SubSeq(lines, r1, r2), new |-> SubSeq(Ev.lines, r1, r2)])
     /\ lines' = Ev.lines /\ Keep
WClear == /\ IF ~Ev.ok \/ ~InFile(Here) THEN Bad("C18:write-failed", Here)
             ELSE Chk(Rest({Here}) /\ Ev.lines[Here] = NL, "C18:clear", Here)
          /\ lines' = Ev.lines /\ Keep

\* ---- parser ----
Stay == UNCHANGED lines /\ Keep
Strip(s) == LET ks == {k \in 1..Len(s) : Ch(s, k) \notin {" ", "\t", NL}}
            IN IF ks = {} THEN "" ELSE Sub(s, 1, CHOOSE k \in ks : \A m \in ks : m <= k)
RLine == /\ Chk(Ev.ok /\ InFile(Here) /\ Ev.text = Strip(lines[Here]), "C18:line", [row |-> Here, got |-> Ev.text]) /\ Stay
Slice(s, a, b) == LET e == IF b = 0 \/ b > Len(s) THEN Len(s) ELSE b IN Sub(s, a, e)
NoNL(s) == IF s # "" /\ Ch(s, Len(s)) = NL THEN Sub(s, 1, Len(s) - 1) ELSE s
WS == {" ", "\t"}
RVar ==
  /\ IF ~InFile(Here) THEN Bad("C18:anchor-row", Here)
     ELSE IF Case.cols
     THEN LET s == NoNL(Slice(lines[Here], Ev.field, Ev.fe)) w == Words(s, WS)
          IN Chk(Ev.ok = (w # <<>>), "C18:read-error", s)
             /\ (Ev.ok /\ w # <<>> => Chk(IF Len(w) = 1 THEN VEq(Ev.val, Canon(w[1])) ELSE Ev.val.t = "s" /\ Ev.val.v = s,
                                          "C18:read", [s |-> s, got |-> Ev.val]))
     ELSE LET w == Words(lines[Here], delims)
          IN Chk(Ev.ok = (Ev.field \in 1..Len(w)), "C18:read-error", [l |-> lines[Here], f |-> Ev.field])
             /\ (Ev.ok /\ Ev.field \in 1..Len(w) => Chk(VEq(Ev.val, Canon(w[Ev.field])), "C18:read", [l |-> lines[Here], f |-> Ev.field, got |-> Ev.val]))
  /\ Stay
RKey ==
  LET r == FindKey(lines, row, Ev.key, Ev.occ) h == r + Ev.off
  IN /\ IF r = 0 THEN Chk(~Ev.ok, "C18:key-found", Ev.key)
        ELSE IF ~InFile(h) THEN TRUE      \* nothing is addressed
        ELSE LET w == Words(Repl(lines[h], Ev.key, "KeyField"), delims)
             IN Chk(Ev.ok = (Ev.field + 1 \in 1..Len(w)), "C18:key-missed", [k |-> Ev.key, l |-> lines[h]])
                /\ (Ev.ok /\ Ev.field + 1 \in 1..Len(w) => Chk(VEq(Ev.val, Canon(w[Ev.field + 1])), "C18:key-read", [l |-> lines[h], got |-> Ev.val]))
     /\ Stay
Nums(s) == [i \in 1..Len(s) |-> Canon(s[i])]
AllNum(s) == \A i \in 1..Len(s) : s[i].t # "s"
FEq(got, s) == Len(got) = Len(s) /\ \A i \in 1..Len(s) : got[i] = s[i].f
Part(s, a, b) == LET e == IF b = 0 \/ b > Len(s) THEN Len(s) ELSE b IN IF a > e THEN <<>> ELSE SubSeq(s, a, e)
\* words of row r between the given bounds
RowVals(r, a, b) == IF Case.cols THEN Nums(Words(NoNL(Slice(lines[r], a, b)), WS)) ELSE Nums(Part(Words(lines[r], delims), a, b))
RArr ==
  LET r1 == row + Ev.r1 r2 == row + Ev.r2
      per(r) == IF Case.cols THEN RowVals(r, Ev.f1, Ev.f2)
                ELSE RowVals(r, IF r = r1 THEN Ev.f1 ELSE 1, IF r = r2 THEN Ev.f2 ELSE 0)
      all == FlattenSeq([i \in 1..(r2 - r1 + 1) |-> per(r1 + i - 1)])
  IN /\ IF ~InFile(r1) \/ ~InFile(r2) THEN Bad("C18:anchor-row", r1)
        ELSE IF ~AllNum(all) \/ (\E i \in r1..r2 : per(i) = <<>>) THEN TRUE
        ELSE Chk(Ev.ok /\ FEq(Ev.vals, all), "C18:read-array", [want |-> all, got |-> Ev.vals])
     /\ Stay
RArr2 ==
  LET r1 == row + Ev.r1 r2 == row + Ev.r2
      per(r) == RowVals(r, Ev.f1, Ev.f2)
  IN /\ IF ~InFile(r1) \/ ~InFile(r2) THEN Bad("C18:anchor-row", r1)
        ELSE IF \E r \in r1..r2 : ~AllNum(per(r)) \/ Len(per(r)) < 2 THEN TRUE
        ELSE IF \E r \in r1..r2 : Len(per(r)) # Len(per(r1)) THEN Chk(~Ev.ok, "C18:ragged-array", Ev.vals)
        ELSE Chk(Ev.ok /\ Len(Ev.vals) = r2 - r1 + 1 /\ \A r \in r1..r2 : FEq(Ev.vals[r - r1 + 1], per(r)), "C18:read-array2", Ev.vals)
     /\ Stay

Step == CASE Ev.op = "anchor" -> Anchor [] Ev.op = "reset" -> Reset [] Ev.op = "delims" -> Delims
          [] Ev.op = "wvar" -> WVar [] Ev.op = "warr" -> WArr [] Ev.op = "warr2" -> WArr2 [] Ev.op = "wclear" -> WClear
          [] Ev.op = "rline" -> RLine [] Ev.op = "rvar" -> RVar [] Ev.op = "rkey" -> RKey [] Ev.op = "rarr" -> RArr
          [] Ev.op = "rarr2" -> RArr2
Begin(c) == lines' = StartLines(c) /\ row' = 1 /\ anch' = FALSE /\ delims' = StartDelims(c)
NextCase == /\ ei > Len(Case.ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ei' = 1 /\ Begin(ci + 1)
Crash == Bad("C18:no-outcome", Case.outcome) /\ ei' = Len(Case.ev) + 1 /\ UNCHANGED <<ci, lines, row, anch, delims>>
Next == IF ei > Len(Case.ev) THEN NextCase
        ELSE IF ei = 1 /\ Case.outcome # "done" THEN Crash
        ELSE Step /\ ei' = ei + 1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Mark == (ei > Len(Case.ev) /\ ci = Len(Cases)) => TLCSet(1, TRUE)
Accepted == TLCGet(1) = TRUE
View == <<ci, ei>>
=============================================================================
