------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The form of the halo2 tables, read line by line.                        *)
(* DATA: all = lines of allstr.txt as sequences of numbers, subs = lines   *)
(* of each substr file, files = names in the directory, gs = substrings    *)
(* asked for, npub = public parts, txt.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)

VARIABLES tab,      \* which tables
          line,     \* next line of allstr.txt
          key,      \* <<from, byte>> of the last line: kept to show which line is wrong
          wrong
vars == <<tab, line, key, wrong>>

All == Data[tab].all
Row == All[line]
Trans == TLCEval([t \in D |-> TLCEval({<<Data[t].all[i][1], Data[t].all[i][2]>> : i \in 4..Len(Data[t].all)})])
Keys == TLCEval([t \in D |-> TLCEval([i \in 1..Len(Data[t].all) |-> IF i > 3 /\ Len(Data[t].all[i]) = 3 THEN <<Data[t].all[i][1], Data[t].all[i][3]>> ELSE <<>>])])
States == [t \in D |-> {e[1] : e \in Trans[t]} \cup {e[2] : e \in Trans[t]}]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == tab \in D /\ line = 1 /\ key = <<>> /\ wrong = ""
Say(ok, why) == IF ok THEN "" ELSE why

ReadFirst == /\ line = 1 /\ key' = <<>>
             /\ wrong' = Say(Row = <<0>>, "the first line is not the initial state 0")
ReadAccept == /\ line = 2 /\ key' = <<>>
              /\ wrong' = Say(Len(Row) = 1 /\ Row[1] \in States[tab], "the second line is not one accepting state")
ReadMax == /\ line = 3 /\ key' = <<>>
           /\ wrong' = Say(Len(Row) = 1 /\ Row[1] = MaxOf(States[tab]), "the third line is not the largest state")
ReadEdge == /\ line > 3 /\ key' = Keys[tab][line]
            /\ wrong' = Say(Len(Row) = 3 /\ Row[1] >= 0 /\ Row[2] >= 0 /\ Row[1] <= All[3][1] /\ Row[2] <= All[3][1] /\ Row[3] \in 0..255,
                            "a line is not a transition")
Next == /\ wrong = "" /\ line <= Len(All) /\ tab' = tab /\ line' = line + 1
        /\ (ReadFirst \/ ReadAccept \/ ReadMax \/ ReadEdge)
Spec == Init /\ [][Next]_vars

LineRight == wrong = ""
(* judged once per table, when all lines are read *)
End == wrong = "" /\ line > Len(All)
Deterministic == End => Len(All) > 3 /\ Cardinality({Keys[tab][i] : i \in 4..Len(All)}) = Len(All) - 3
Connected == End => \A q \in 0..All[3][1] : q \in States[tab]
Files == End => ToSet(Data[tab].files) = {"allstr.txt"} \cup (IF Data[tab].gs THEN {"substr_" \o ToString(k) \o ".txt" : k \in 0..(Data[tab].npub - 1)} ELSE {})
NoRepeat(s) == Cardinality(ToSet(s)) = Len(s)
SubsRight == End => \A k \in 1..Len(Data[tab].subs) :
  LET s == Data[tab].subs[k] IN
  /\ Len(s) >= 3
  /\ NoRepeat(s[1]) /\ NoRepeat(s[2]) /\ s[1] # <<>> /\ s[2] # <<>>
  /\ \A q \in ToSet(s[1]) \cup ToSet(s[2]) : q \in 0..All[3][1]
  /\ NoRepeat(SubSeq(s, 3, Len(s)))
  (* a listed pair without any byte (all taken by a later part) moves nothing; see Automaton.tla for the others *)
  /\ \A i \in 3..Len(s) : Len(s[i]) = 2 /\ s[i][1] \in 0..All[3][1] /\ s[i][2] \in 0..All[3][1]
=============================================================================
