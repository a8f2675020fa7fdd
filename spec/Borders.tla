------------------------------ MODULE Borders ------------------------------
(***************************************************************************)
(* What the committed reading of Parts.tla, and the scan of Scan.tla, mean *)
(* in terms of the plain concatenation of the parts.                       *)
(*                                                                         *)
(* `free` is what the concatenation's own automaton can have read: pairs   *)
(* of a part and a position in it, without any commitment; in "search"     *)
(* mode a new attempt may begin before every byte, so that `free` follows  *)
(* all attempts at once.  `conf` is the committed reading (one attempt     *)
(* from the start), or the scanner's.  Both read every byte string.        *)
(*                                                                         *)
(* Theorems about the specification, checked on the complete product:      *)
(* what is read with commitment can be read without; as long as no byte    *)
(* could be read by two different parts, the two readings are the same;    *)
(* and a scan that never had to choose between two attempts follows all    *)
(* of them.  A definition some byte string of which does have the choice   *)
(* is printed.                                                             *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)
Auto == TLCEval([dd \in D |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> TLCEval(Nfa(Data[dd].parts[i].ast))])])
Cls  == TLCEval([dd \in D |-> TLCEval(Classes(Auto[dd]))])

VARIABLES def, mode, conf, free, clear
vars == <<def, mode, conf, free, clear>>
As == Auto[def]

FreeStart == {<<1, 0>>}
FreeStep(X, b) ==
  UNION {LET i == x[1]
             p == x[2]
         IN {<<i, q>> : q \in Move(As[i], {p}, b)}
            \cup (IF p \in As[i].lst /\ i < Len(As)
                  THEN UNION {{<<j, q>> : q \in Move(As[j], {0}, b)} : j \in (i + 1)..Far(As, i + 1)} ELSE {}) : x \in X}
FreeAccepts(X) == \E x \in X : x[2] \in As[x[1]].lst /\ \A j \in (x[1] + 1)..Len(As) : As[j].nul
Same(c) == {<<c[1], p>> : p \in c[2]}

Init == /\ def \in D /\ clear = TRUE
        /\ \/ mode = "read" /\ conf = Start /\ free = FreeStart
           \/ mode = "search" /\ conf = Idle /\ free = {}
Read(b) ==
  /\ mode = "read"
  /\ conf' = (IF conf = Dead THEN Dead ELSE Step(As, conf, b))
  /\ free' = FreeStep(free, b)
  /\ clear' = (clear /\ Cardinality({x[1] : x \in free'}) <= 1)
Search(b) ==
  /\ mode = "search" /\ b # 0
  /\ conf' = (IF Continues(As, conf, b) THEN Step(As, conf, b) ELSE IF Begins(As, b) THEN Step(As, Start, b) ELSE Idle)
  /\ LET old == FreeStep(free, b)
         new == FreeStep(FreeStart, b)
     IN /\ free' = old \cup new
        /\ clear' = (clear /\ Cardinality({x[1] : x \in free'}) <= 1 /\ (old = {} \/ new = {}))
Next == /\ def' = def /\ mode' = mode
        /\ \E k \in 1..Len(Cls[def]) : Read(Cls[def][k][1]) \/ Search(Max2(1, Cls[def][k][1]))
        /\ (clear /\ ~clear' => PrintT("@@" \o mode \o "|" \o ToString(def)))
Spec == Init /\ [][Next]_vars

Sound == Same(conf) \subseteq free
Exact == clear => Same(conf) = free
AcceptSound == conf # Dead /\ Accepts(As, conf) => FreeAccepts(free)
AcceptExact == clear => (FreeAccepts(free) <=> (conf # Dead /\ Accepts(As, conf)))
=============================================================================
