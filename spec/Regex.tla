------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* What a regular expression means, over bytes.  An expression is a record *)
(* (see lib/rx.py): t is one of eps, cls, byt, cat, alt, star, plus, opt.  *)
(* A character class is lowered to UTF-8 here; positions (Glushkov) are    *)
(* the places of the expression that read one byte.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

--------------------------------------------------------------------------
(* UTF-8: code-point ranges as sequences of byte ranges *)

EncLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Enc(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8(_, _), Utf8Same(_, _, _)
Utf8Same(lo, hi, i) ==      \* lo and hi have the same encoded length; levels 1..i-1 are aligned
  LET m == 64 ^ i IN
  IF i >= EncLen(lo) THEN {[k \in 1..EncLen(lo) |-> <<Enc(lo)[k], Enc(hi)[k]>>]}
  ELSE IF lo \div m = hi \div m THEN {[k \in 1..EncLen(lo) |-> <<Enc(lo)[k], Enc(hi)[k]>>]}
  ELSE IF (lo % m) # 0 THEN LET c == (lo \div m) * m + m - 1 IN Utf8(lo, c) \cup Utf8(c + 1, hi)
  ELSE IF (hi % m) # m - 1 THEN LET c == (hi \div m) * m - 1 IN Utf8(lo, c) \cup Utf8(c + 1, hi)
  ELSE Utf8Same(lo, hi, i + 1)
Utf8(lo, hi) ==
  IF lo > hi THEN {}
  ELSE IF lo < 128 /\ hi > 127 THEN Utf8(lo, 127) \cup Utf8(128, hi)
  ELSE IF lo < 2048 /\ hi > 2047 THEN Utf8(lo, 2047) \cup Utf8(2048, hi)
  ELSE IF lo < 65536 /\ hi > 65535 THEN Utf8(lo, 65535) \cup Utf8(65536, hi)
  ELSE IF lo <= 57343 /\ hi >= 55296      \* the surrogates have no encoding
       THEN Utf8(lo, 55295) \cup Utf8(57344, hi)
  ELSE Utf8Same(lo, hi, 1)

ClassSeqs(r) == UNION {Utf8(r[i][1], r[i][2]) : i \in 1..Len(r)}

--------------------------------------------------------------------------
(* Positions *)

Pos(id, s, k) == id * 10000 + s * 10 + k

Empty == [nul |-> TRUE, fst |-> {}, lst |-> {}, fol |-> {}, ps |-> {}]

RECURSIVE Gl(_), GlCat(_, _), GlAlt(_, _)
Gl(n) ==
  CASE n.t = "eps" -> Empty
    [] n.t = "byt" -> LET p == Pos(n.id, 1, 1) IN
         [nul |-> FALSE, fst |-> {p}, lst |-> {p}, fol |-> {}, ps |-> {<<p, n.b, n.b>>}]
    [] n.t = "cls" ->
         LET ss == SetToSeq(ClassSeqs(n.r)) IN
         [nul |-> FALSE,
          fst |-> {Pos(n.id, s, 1) : s \in DOMAIN ss},
          lst |-> {Pos(n.id, s, Len(ss[s])) : s \in DOMAIN ss},
          fol |-> UNION {{<<Pos(n.id, s, k), Pos(n.id, s, k + 1)>> : k \in 1..(Len(ss[s]) - 1)} : s \in DOMAIN ss},
          ps  |-> UNION {{<<Pos(n.id, s, k), ss[s][k][1], ss[s][k][2]>> : k \in 1..Len(ss[s])} : s \in DOMAIN ss}]
    [] n.t = "cat" -> GlCat(n.xs, Len(n.xs))
    [] n.t = "alt" -> GlAlt(n.xs, Len(n.xs))
    [] n.t = "opt" -> LET g == Gl(n.x) IN [g EXCEPT !.nul = TRUE]
    [] n.t \in {"star", "plus"} ->
         LET g == TLCEval(Gl(n.x)) IN
         [g EXCEPT !.nul = (@ \/ n.t = "star"), !.fol = @ \cup (g.lst \X g.fst)]
GlCat(xs, k) ==
  IF k = 0 THEN Empty
  ELSE LET a == TLCEval(GlCat(xs, k - 1))
           b == TLCEval(Gl(xs[k]))
       IN [nul |-> a.nul /\ b.nul,
           fst |-> a.fst \cup (IF a.nul THEN b.fst ELSE {}),
           lst |-> b.lst \cup (IF b.nul THEN a.lst ELSE {}),
           fol |-> a.fol \cup b.fol \cup (a.lst \X b.fst),
           ps  |-> a.ps \cup b.ps]
GlAlt(xs, k) ==
  IF k = 1 THEN Gl(xs[1])
  ELSE LET a == TLCEval(GlAlt(xs, k - 1))
           b == TLCEval(Gl(xs[k]))
       IN [nul |-> a.nul \/ b.nul, fst |-> a.fst \cup b.fst, lst |-> a.lst \cup b.lst,
           fol |-> a.fol \cup b.fol, ps |-> a.ps \cup b.ps]

(* The automaton of one expression: what can follow each position, what it reads. Position 0 is the start. *)
Nfa(n) ==
  LET g == TLCEval(Gl(n))
      P == {x[1] : x \in g.ps}
      lo == [p \in P |-> (CHOOSE x \in g.ps : x[1] = p)[2]]
      hi == [p \in P |-> (CHOOSE x \in g.ps : x[1] = p)[3]]
      by == [p \in P |-> {e[2] : e \in {e \in g.fol : e[1] = p}}]
  IN [nul |-> g.nul,
      lst |-> g.lst \cup (IF g.nul THEN {0} ELSE {}),
      fol |-> TLCEval([p \in P \cup {0} |-> IF p = 0 THEN g.fst ELSE by[p]]),
      lo  |-> TLCEval(lo),
      hi  |-> TLCEval(hi)]

Move(A, S, b) == {q \in UNION {A.fol[p] : p \in S} : A.lo[q] <= b /\ b <= A.hi[q]}
Final(A, S) == S \cap A.lst # {}

(* Bytes that no position of any of the automata tells apart, as intervals *)
Cuts(As) == {0, 256} \cup UNION {{As[i].lo[p] : p \in DOMAIN As[i].lo} \cup {As[i].hi[p] + 1 : p \in DOMAIN As[i].hi} : i \in DOMAIN As}
Classes(As) ==
  LET c == SetToSortSeq(Cuts(As), LAMBDA x, y : x < y)
  IN [k \in 1..(Len(c) - 1) |-> <<c[k], c[k + 1] - 1>>]
=============================================================================
