------------------------------- MODULE Units -------------------------------
(* Meaning of unit expressions: a function of the expression alone.  A unit is [l, d, off]: logarithm of its factor to
   base units (millionths), integer dimensions over BaseUnits, and whether it is a scale with an offset.
   Expressions: [k |-> "n", name], [k |-> "c", c], [k |-> "*"|"/", a, b], [k |-> "^", a, n, r] (a to the n/r). *)
EXTENDS UnitLib, Rat, FiniteSets
NB == Len(BaseUnits)
Invalid == [l |-> 0, d |-> <<>>, off |-> FALSE, ty |-> "bad", one |-> ""]
Zero == [i \in 1..NB |-> 0]
BaseIdx(n) == {i \in 1..NB : BaseUnits[i] = n}

RECURSIVE Res(_), ResParts(_, _, _, _)
ResParts(p, i, l, d) ==
  IF i > Len(p) THEN <<l, d>>
  ELSE LET r == Res(p[i][1]) k == p[i][2]
       IN ResParts(p, i + 1, l + k * r[1], [j \in 1..NB |-> d[j] + k * r[2][j]])
Res(n) == IF BaseIdx(n) # {} THEN <<0, [j \in 1..NB |-> IF BaseUnits[j] = n THEN 1 ELSE 0]>>
          ELSE ResParts(Defs[n].p, 1, Defs[n].l, Zero)
Names == DOMAIN Defs \cup {BaseUnits[i] : i \in 1..NB}
Lib == [n \in Names |-> Res(n)]
Consts == "1" :> 0 @@ "2" :> 693147 @@ "10" :> 2302585 @@ "2.5" :> 916291 @@ "1e3" :> 6907755 @@ "0.5" :> -693147 @@ "60" :> 4094345

Mk(r, off, nm) == [l |-> r[1], d |-> r[2], off |-> off, ty |-> "unit", one |-> nm]
\* a name: itself if defined, else one-letter prefix, else two-letter prefix, of a defined unit without offset
Name(n) ==
  LET k == Len(n)
      try(j) == k > j /\ SubSeq(n, 1, j) \in DOMAIN Prefixes /\ SubSeq(n, j + 1, k) \in Names
      pre(j) == LET b == SubSeq(n, j + 1, k) r == Lib[b]
                IN IF b \in OffsetUnits THEN Invalid ELSE Mk(<<r[1] + Prefixes[SubSeq(n, 1, j)], r[2]>>, FALSE, "")
  IN IF n \in Names THEN Mk(Lib[n], n \in OffsetUnits, n)
     ELSE IF try(1) THEN pre(1) ELSE IF try(2) THEN pre(2) ELSE Invalid

RECURSIVE Mean(_)
Mean(e) ==
  CASE e.k = "n" -> Name(e.name)
    [] e.k = "c" -> [l |-> Consts[e.c], d |-> Zero, off |-> FALSE, ty |-> "num", one |-> ""]
    [] e.k \in {"*", "/"} ->
         LET a == Mean(e.a) b == Mean(e.b) s == IF e.k = "*" THEN 1 ELSE -1
         IN IF a.ty = "bad" \/ b.ty = "bad" \/ a.off \/ b.off THEN Invalid
            ELSE [l |-> a.l + s * b.l, d |-> [j \in 1..NB |-> a.d[j] + s * b.d[j]], off |-> FALSE,
                  ty |-> IF a.ty = "unit" \/ b.ty = "unit" THEN "unit" ELSE "num", one |-> ""]
    [] e.k = "^" ->
         LET a == Mean(e.a)
         IN IF a.ty = "num" THEN [a EXCEPT !.l = (@ * e.n) \div e.r]
            ELSE IF a.ty # "unit" \/ a.off \/ \E j \in 1..NB : a.d[j] % e.r # 0 THEN Invalid
            ELSE [l |-> (a.l * e.n) \div e.r, d |-> [j \in 1..NB |-> (a.d[j] * e.n) \div e.r], off |-> FALSE, ty |-> "unit",
                  one |-> ""]
    [] OTHER -> Invalid
Valid(u) == u.ty = "unit"
Compatible(u, v) == Valid(u) /\ Valid(v) /\ u.d = v.d
\* units on temperature scales known exactly
Scale(u) == Valid(u) /\ u.one \in DOMAIN Affine
\* x in u expressed in v, exactly
Conv(u, v, x) == LET a == Affine[u.one] b == Affine[v.one] IN RSub(RDiv(RMul(RAdd(x, a.o), a.f), b.f), b.o)
=============================================================================
