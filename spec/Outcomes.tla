------------------------------ MODULE Outcomes ------------------------------
(***************************************************************************)
(* What came of requests about which nothing is said but that they end in  *)
(* one of two ways, and that what is produced is well formed.  DATA: out   *)
(* ("ok", "err", "panic" per call), wf.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
VARIABLE at
Init == at \in 1..Len(Data)
Next == FALSE /\ UNCHANGED at
Spec == Init /\ [][Next]_at
EndsCleanly == \A i \in 1..Len(Data[at].out) : Data[at].out[i] \in {"ok", "err"}
WellFormed == Data[at].wf
=============================================================================
