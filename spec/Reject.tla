------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Definitions that the compiler refused for the number of their accepting *)
(* states.  The refusal is right when, and only when, the last part has    *)
(* two accepting configurations that some continuation tells apart (or it  *)
(* can never accept at all).                                               *)
(***************************************************************************)
EXTENDS Parts, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)

VARIABLES def, reach, todo, num, edge, cls, phase
vars == <<def, reach, todo, num, edge, cls, phase>>

LastPart(dd) == <<Data[dd].parts[Len(Data[dd].parts)].ast>>
Auto == TLCEval([dd \in D |-> TLCEval([i \in 1..1 |-> TLCEval(Nfa(LastPart(dd)[i]))])])
Cls == TLCEval([dd \in D |-> TLCEval(Classes(Auto[dd]))])
Reps(dd) == {Cls[dd][k][1] : k \in 1..Len(Cls[dd])}
Go(dd, cc, b) == IF cc = Dead THEN Dead ELSE Step(Auto[dd], cc, b)
Acc(dd, cc) == cc # Dead /\ Accepts(Auto[dd], cc)


Init == def \in D /\ reach = <<Start>> /\ todo = 1 /\ num = 0 /\ edge = <<>> /\ cls = <<>> /\ phase = "reach"

(* give the configurations numbers in the order in which they are found; edge[x] are the successors of number x *)
Explore ==
  /\ phase = "reach" /\ todo <= Len(reach)
  /\ LET R == SetToSortSeq(Reps(def), LAMBDA x, y : x < y)
         T == TLCEval([k \in 1..Len(R) |-> Go(def, reach[todo], R[k])])
         new == TLCEval(SetToSeq(ToSet(T) \ ToSet(reach)))
         all == TLCEval(reach \o new)
     IN reach' = all /\ edge' = Append(edge, [k \in 1..Len(R) |-> CHOOSE x \in 1..Len(all) : all[x] = T[k]])
  /\ todo' = todo + 1
  /\ UNCHANGED <<def, num, cls, phase>>
Split ==
  /\ phase = "reach" /\ todo > Len(reach)
  /\ phase' = "split" /\ num' = 0
  /\ cls' = [x \in 1..Len(reach) |-> IF Acc(def, reach[x]) THEN 1 ELSE 0]
  /\ UNCHANGED <<def, reach, todo, edge>>
(* two configurations stay together when they are together now and after every byte *)
Together(x, y) == cls[x] = cls[y] /\ \A k \in DOMAIN edge[x] : cls[edge[x][k]] = cls[edge[y][k]]
Refine ==
  /\ phase = "split"
  /\ LET N == 1..Len(reach)
         c2 == TLCEval([x \in N |-> CHOOSE y \in N : Together(x, y) /\ \A z \in 1..(y - 1) : ~Together(x, z)])
     IN cls' = c2 /\ num' = Cardinality(Range(c2)) /\ phase' = IF num' = num THEN "done" ELSE phase
  /\ UNCHANGED <<def, reach, todo, edge>>
Next == Explore \/ Split \/ Refine
Spec == Init /\ [][Next]_vars

AcceptClasses == {cls[x] : x \in {x \in 1..Len(reach) : Acc(def, reach[x])}}
RefusalJustified == phase = "done" => Cardinality(AcceptClasses) # 1
=============================================================================
