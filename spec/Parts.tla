------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* What a decomposed definition accepts: the concatenation of its parts,   *)
(* read with commitment.  A configuration <<i, S>> says that the last byte *)
(* was read by part i, at the positions S.  From a configuration where     *)
(* part i is complete, a byte that can begin a later part (reached through *)
(* parts that may be empty) is given to the latest such part; only a byte  *)
(* that no later part can begin with stays in part i.                      *)
(* This is the documented limitation of the compiler: parts do not         *)
(* backtrack.  It is language-exact when the border of each part is        *)
(* deterministic (see PartsMeaning.tla).                                   *)
(***************************************************************************)
EXTENDS Regex

Dead == <<0, {}>>
Start == <<1, {0}>>

(* As: a sequence of automata, one per part *)
RECURSIVE Far(_, _)
Far(As, m) == IF m < Len(As) /\ As[m].nul THEN Far(As, m + 1) ELSE m

RECURSIVE Latest(_, _, _, _)
Latest(As, m, i, b) ==     \* the latest part in i+1..m that can begin with b, or i
  IF m <= i THEN i
  ELSE IF Move(As[m], {0}, b) # {} THEN m ELSE Latest(As, m - 1, i, b)

Step(As, c, b) ==
  LET i == c[1]
      m == IF i < Len(As) /\ Final(As[i], c[2]) THEN Latest(As, Far(As, i + 1), i, b) ELSE i
      T == IF m = i THEN Move(As[i], c[2], b) ELSE Move(As[m], {0}, b)
  IN IF T = {} THEN Dead ELSE <<m, T>>

(* complete up to part n *)
DoneUpTo(As, c, n) ==
  /\ c[1] <= n
  /\ Final(As[c[1]], c[2])
  /\ \A j \in (c[1] + 1)..n : As[j].nul
Accepts(As, c) == DoneUpTo(As, c, Len(As))
=============================================================================
