------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* What a backtracking matcher finds, in order of preference: Ends(n, s, i)*)
(* is the sequence of positions where expression n can stop when it starts *)
(* before character i of the string s (a sequence of code points), most    *)
(* preferred first, without repetitions.  Alternatives are tried from left *)
(* to right, a greedy repetition prefers to go on, a lazy one to stop.     *)
(* Look-around ("ahead", "behind") and borders of words read nothing; an  *)
(* atomic group or possessive repetition keeps its first way to end.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Has(q, x) == \E k \in 1..Len(q) : q[k] = x
Add(q, x) == IF Has(q, x) THEN q ELSE Append(q, x)
Join(q, r) == FoldLeft(LAMBDA a, x : Add(a, x), q, r)
In(c, rs) == \E k \in 1..Len(rs) : rs[k][1] <= c /\ c <= rs[k][2]

RECURSIVE Ends(_, _, _), Seq2(_, _, _, _), Alt2(_, _, _, _), More(_, _, _, _, _), Each(_, _, _, _)

(* what n can reach from any of the positions js *)
Each(n, s, js, acc) ==
  IF js = <<>> THEN acc ELSE Each(n, s, Tail(js), Join(acc, Ends(n, s, Head(js))))
Seq2(xs, s, k, js) == IF k > Len(xs) \/ js = <<>> THEN js ELSE Seq2(xs, s, k + 1, Each(xs[k], s, js, <<>>))
Alt2(xs, s, k, i) == IF k > Len(xs) THEN <<>> ELSE Join(Ends(xs[k], s, i), Alt2(xs, s, k + 1, i))
(* any number of further rounds of x from i; a round that reads nothing is the last *)
More(x, g, s, i, acc) ==
  IF Has(acc, i) THEN acc
  ELSE LET rounds(a) == FoldLeft(LAMBDA b, j : IF j = i THEN Add(b, i) ELSE More(x, g, s, j, b), a, Ends(x, s, i))
       IN IF g THEN Add(rounds(acc), i) ELSE rounds(Add(acc, i))
Ends(n, s, i) ==
  CASE n.t = "eps" -> <<i>>
    [] n.t = "cls" -> IF i <= Len(s) /\ In(s[i], n.r) THEN <<i + 1>> ELSE <<>>
    [] n.t = "bot" -> IF i = 1 THEN <<i>> ELSE <<>>
    [] n.t = "eot" -> IF i = Len(s) + 1 THEN <<i>> ELSE <<>>
    [] n.t = "ahead" -> IF (Ends(n.x, s, i) # <<>>) # n.neg THEN <<i>> ELSE <<>>
    [] n.t = "behind" -> IF (\E j \in 1..i : Has(Ends(n.x, s, j), i)) # n.neg THEN <<i>> ELSE <<>>
    [] n.t = "border" -> IF ((i > 1 /\ In(s[i - 1], n.r)) # (i <= Len(s) /\ In(s[i], n.r))) # n.neg THEN <<i>> ELSE <<>>
    (* only the preferred way to end, whatever follows *)
    [] n.t = "atom" -> LET w == Ends(n.x, s, i) IN IF w = <<>> THEN w ELSE <<Head(w)>>
    [] n.t = "cat" -> Seq2(n.xs, s, 1, <<i>>)
    [] n.t = "alt" -> Alt2(n.xs, s, 1, i)
    [] n.t = "opt" -> IF n.g THEN Add(Ends(n.x, s, i), i) ELSE Join(<<i>>, Ends(n.x, s, i))
    [] n.t = "star" -> More(n.x, n.g, s, i, <<>>)
    [] n.t = "plus" -> FoldLeft(LAMBDA b, j : IF j = i THEN Add(b, i) ELSE More(n.x, n.g, s, j, b), <<>>, Ends(n.x, s, i))
=============================================================================
