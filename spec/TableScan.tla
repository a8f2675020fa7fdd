----------------------------- MODULE TableScan -----------------------------
(***************************************************************************)
(* Recorded runs of circuits against the compiled tables: the same way of  *)
(* reading a message as Scan.tla, but the attempt walks along the table,   *)
(* and a byte belongs to set k exactly when it moves the attempt along a   *)
(* transition <<from, to>> of set k.                                       *)
(*                                                                         *)
(* DATA: delta (rows by state and byte, -1: none), accept (sequence),      *)
(*       sets (one sequence of <<from, to>> per reveal output), end,       *)
(*       reveals, txt.   RUNS: as in Scanner.tla.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
D == 1..Len(Data)
Sets == TLCEval([dd \in D |-> TLCEval([k \in 1..Len(Data[dd].sets) |-> ToSet(Data[dd].sets[k])])])
Acc == TLCEval([dd \in D |-> ToSet(Data[dd].accept)])

VARIABLES run, at, node, held, shown, found, phase
vars == <<run, at, node, held, shown, found, phase>>

Def == Runs[run].d
Msg == Runs[run].m
RECURSIVE EndOf(_, _)
EndOf(mm, n) == IF n = 0 \/ mm[n] # 0 THEN n ELSE EndOf(mm, n - 1)
Byte == IF at = 0 THEN 255 ELSE Msg[at]
Edge(q, b) == IF q < 0 \/ b <= 0 \/ b > 255 THEN -1 ELSE Data[Def].delta[q + 1][b + 1]

Init == /\ run \in 1..Len(Runs)
        /\ at = 0 /\ node = -1 /\ held = {} /\ shown = {} /\ found = FALSE /\ phase = "read"

Piece(q, q2) == IF at = 0 THEN {} ELSE {<<at, k>> : k \in {kk \in 1..Len(Sets[Def]) : <<q, q2>> \in Sets[Def][kk]}}
Counts(q2) == q2 \in Acc[Def] /\ (Data[Def].end => at = EndOf(Msg, Len(Msg)))
Settle(q2, h) ==
  IF Counts(q2) THEN shown' = shown \cup h /\ held' = {} /\ found' = TRUE
  ELSE held' = h /\ UNCHANGED <<shown, found>>

Continue ==
  /\ phase = "read" /\ at <= Len(Msg) /\ Edge(node, Byte) >= 0
  /\ node' = Edge(node, Byte)
  /\ Settle(node', held \cup Piece(node, node'))
  /\ at' = at + 1 /\ UNCHANGED <<run, phase>>
Restart ==
  /\ phase = "read" /\ at <= Len(Msg) /\ Edge(node, Byte) < 0 /\ Edge(0, Byte) >= 0
  /\ node' = Edge(0, Byte)
  /\ Settle(node', Piece(0, node'))
  /\ at' = at + 1 /\ UNCHANGED <<run, phase>>
Drop ==
  /\ phase = "read" /\ at <= Len(Msg) /\ Edge(node, Byte) < 0 /\ Edge(0, Byte) < 0
  /\ node' = -1 /\ held' = {}
  /\ at' = at + 1 /\ UNCHANGED <<run, shown, found, phase>>
Finish ==
  /\ phase = "read" /\ at > Len(Msg)
  /\ phase' = "done" /\ UNCHANGED <<run, at, node, held, shown, found>>
Next == Continue \/ Restart \/ Drop \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Satisfiable == Done => Runs[run].s = "sat"
OutRight == (Done /\ Runs[run].s = "sat") => Runs[run].o = (IF found THEN 1 ELSE 0)
RevealRight ==
  (Done /\ Runs[run].s = "sat" /\ Data[Def].reveals) =>
    /\ Len(Runs[run].r) = Len(Sets[Def])
    /\ \A k \in 1..Len(Sets[Def]) :
         /\ Len(Runs[run].r[k]) = Len(Msg)
         /\ \A j \in 1..Len(Msg) : Runs[run].r[k][j] = (IF <<j, k>> \in shown THEN Msg[j] ELSE 0)
=============================================================================
