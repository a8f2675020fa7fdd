------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* Recorded runs of circuits against the scan.  Each run is a message with *)
(* what the real circuit answered; the actions read the message one byte   *)
(* at a time, and in the state after the last byte the answer has to be    *)
(* the specification's.                                                    *)
(*                                                                         *)
(* DATA: one definition per line (parts, end, npub, txt).                  *)
(* RUNS: one run per line (d: definition, m: message as offered to the     *)
(*       circuit, o: its output, r: its reveal outputs, s: satisfiable).   *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
D == 1..Len(Data)
Auto == TLCEval([dd \in D |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> TLCEval(Nfa(Data[dd].parts[i].ast))])])
Public == TLCEval([dd \in D |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> Data[dd].parts[i].k])])

VARIABLES run,     \* which run
          at,      \* how many elements (the marker first) have been read
          conf,    \* what the running attempt has read
          held,    \* public bytes <<position, part>> of the running attempt that no completed match covers yet
          shown,   \* public bytes of completed matches
          found,   \* a match was completed (where it may be)
          phase    \* "read" or "done"
vars == <<run, at, conf, held, shown, found, phase>>

Def == Runs[run].d
As == Auto[Def]
Msg == Runs[run].m
(* The message ends before its padding: position of the last byte that is not zero *)
RECURSIVE EndOf(_, _)
EndOf(mm, n) == IF n = 0 \/ mm[n] # 0 THEN n ELSE EndOf(mm, n - 1)

Init == /\ run \in 1..Len(Runs)
        /\ at = 0 /\ conf = Idle /\ held = {} /\ shown = {} /\ found = FALSE /\ phase = "read"

Byte == IF at = 0 THEN Marker ELSE Msg[at]
(* the byte at position `at` is read by part c[1] *)
Piece(c) == IF Public[Def][c[1]] >= 0 /\ at > 0 THEN {<<at, Public[Def][c[1]] + 1>>} ELSE {}
Counts(c) == Complete(As, c) /\ (Data[Def].end => at = EndOf(Msg, Len(Msg)))
Settle(c, h) ==
  IF Counts(c) THEN shown' = shown \cup h /\ held' = {} /\ found' = TRUE
  ELSE held' = h /\ UNCHANGED <<shown, found>>

ReadContinue ==
  /\ phase = "read" /\ at <= Len(Msg) /\ Continues(As, conf, Byte)
  /\ conf' = Step(As, conf, Byte)
  /\ Settle(conf', held \cup Piece(conf'))
  /\ at' = at + 1 /\ UNCHANGED <<run, phase>>
ReadRestart ==
  /\ phase = "read" /\ at <= Len(Msg) /\ ~Continues(As, conf, Byte) /\ Begins(As, Byte)
  /\ conf' = Step(As, Start, Byte)
  /\ Settle(conf', Piece(conf'))
  /\ at' = at + 1 /\ UNCHANGED <<run, phase>>
ReadIdle ==
  /\ phase = "read" /\ at <= Len(Msg) /\ ~Continues(As, conf, Byte) /\ ~Begins(As, Byte)
  /\ conf' = Idle /\ held' = {}
  /\ at' = at + 1 /\ UNCHANGED <<run, shown, found, phase>>
Finish ==
  /\ phase = "read" /\ at > Len(Msg)
  /\ phase' = "done" /\ UNCHANGED <<run, at, conf, held, shown, found>>
Next == ReadContinue \/ ReadRestart \/ ReadIdle \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Valid == \A i \in 1..Len(Msg) : Msg[i] >= 0 /\ Msg[i] < 255
Satisfiable == Done /\ Valid => Runs[run].s = "sat"
Rejected == Done /\ ~Valid => Runs[run].s = "unsat"
OutRight == (Done /\ Runs[run].s = "sat") => Runs[run].o = (IF found THEN 1 ELSE 0)
RevealRight ==
  (Done /\ Runs[run].s = "sat" /\ Data[Def].reveals) =>
    /\ Len(Runs[run].r) = Data[Def].npub
    /\ \A k \in 1..Data[Def].npub :
         /\ Len(Runs[run].r[k]) = Len(Msg)
         /\ \A j \in 1..Len(Msg) : Runs[run].r[k][j] = (IF <<j, k>> \in shown THEN Msg[j] ELSE 0)
=============================================================================
