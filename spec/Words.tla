------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Every sequence of tokens up to a length, printed.  DATA: per grammar    *)
(* its number of tokens and the length.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
VARIABLES g, w
Init == g \in 1..Len(Data) /\ w = <<>>
Next == /\ Len(w) < Data[g].len
        /\ \E t \in 1..Data[g].tokens : w' = Append(w, t)
        /\ g' = g
Spec == Init /\ [][Next]_<<g, w>>
Printed == PrintT("@@" \o ToString(<<g, w>>))
=============================================================================
