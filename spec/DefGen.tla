------------------------------- MODULE DefGen -------------------------------
(***************************************************************************)
(* All the regular expressions of up to SIZE leaves and operators, built   *)
(* one token at a time on a stack.  Every state with a single expression   *)
(* on the stack is a regular expression; it is printed with the syntax     *)
(* tree that Regex.tla reads, so that its text never needs to be parsed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

SIZE == atoi(IOEnv.SIZE)

Leaf(x) == [t |-> "cls", id |-> 0, r |-> x.r]
Leaves == << [s |-> "a", r |-> <<<<97, 97>>>>],
             [s |-> "b", r |-> <<<<98, 98>>>>],
             [s |-> "[ab]", r |-> <<<<97, 98>>>>],
             [s |-> "[^a]", r |-> <<<<0, 96>>, <<98, 55295>>, <<57344, 1114111>>>>] >>
NL == atoi(IOEnv.LEAVES)        \* how many of them to use

(* prec 3: atom, 2: repeated, 1: concatenation, 0: alternation *)
Group(e, p) == IF e.p >= p THEN e.s ELSE "(" \o e.s \o ")"
Unary == [star |-> "*", plus |-> "+", opt |-> "?"]

VARIABLES stack, size
vars == <<stack, size>>

Init == stack = <<>> /\ size = 0

PushLeaf == \E k \in 1..NL :
  /\ stack' = Append(stack, [s |-> Leaves[k].s, p |-> 3, a |-> Leaf(Leaves[k])])
  /\ size' = size + 1
Apply1 == \E o \in DOMAIN Unary :
  LET e == stack[Len(stack)] IN
  /\ stack # <<>>
  /\ stack' = [stack EXCEPT ![Len(stack)] =
        [s |-> Group(e, 3) \o Unary[o], p |-> 2, a |-> [t |-> o, x |-> e.a, g |-> TRUE]]]
  /\ size' = size + 1
Apply2 == \E o \in {"cat", "alt"} :
  LET n == Len(stack)
      d == stack[n - 1]
      e == stack[n] IN
  /\ n >= 2
  /\ stack' = SubSeq(stack, 1, n - 2) \o
       << IF o = "cat" THEN [s |-> Group(d, 1) \o Group(e, 2), p |-> 1, a |-> [t |-> "cat", xs |-> <<d.a, e.a>>]]
                       ELSE [s |-> d.s \o "|" \o Group(e, 1), p |-> 0, a |-> [t |-> "alt", xs |-> <<d.a, e.a>>]] >>
  /\ size' = size + 1

Next ==
  /\ size < SIZE
  /\ PushLeaf \/ Apply1 \/ Apply2
  \* what is left must be able to become one expression
  /\ size' + Len(stack') - 1 <= SIZE
Spec == Init /\ [][Next]_vars

Emit == Len(stack) = 1 => PrintT("@@" \o ToJson([s |-> stack[1].s, a |-> stack[1].a]))
=============================================================================
