-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Shipped circuits made of other circuits.  A pipeline is a sequence of   *)
(* stages: each scans the message, or what an earlier stage revealed, with *)
(* a definition, from left to right or from right to left.  The stage      *)
(* `must` has to match, else the circuit has no witness.  The result is    *)
(* that of the stage `first` if it matches and that of `second` otherwise. *)
(*                                                                         *)
(* DATA: definitions (parts).  PIPES: stages (d, rev, src; 0: the message),*)
(* must (0: none), first, second.  RUNS: p, m, s, o, r as in Scanner.      *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Pipes == TLCEval(ndJsonDeserialize(IOEnv.PIPES))
Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
Auto == TLCEval([dd \in 1..Len(Data) |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> TLCEval(Nfa(Data[dd].parts[i].ast))])])
Public == TLCEval([dd \in 1..Len(Data) |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> Data[dd].parts[i].k])])

VARIABLES run,
          text,    \* what the present stage reads
          at, conf, held, shown, found,      \* as in Scanner
          res      \* results of the stages so far: whether it matched, and what it reveals
vars == <<run, text, at, conf, held, shown, found, res>>

P == Pipes[Runs[run].p]
Stage == P.stages[Len(res) + 1]
As == Auto[Stage.d]
Turn(q) == [i \in 1..Len(q) |-> q[Len(q) - i + 1]]
Side(s, q) == IF s.rev THEN Turn(q) ELSE q

Init == /\ run \in 1..Len(Runs) /\ res = <<>>
        /\ text = LET s == Pipes[Runs[run].p].stages[1] IN IF s.rev THEN Turn(Runs[run].m) ELSE Runs[run].m
        /\ at = 0 /\ conf = Idle /\ held = {} /\ shown = {} /\ found = FALSE

Ready == Len(res) < Len(P.stages) /\ at <= Len(text)
Byte == IF at = 0 THEN Marker ELSE text[at]
Piece(c) == IF Public[Stage.d][c[1]] = 0 /\ at > 0 THEN {at} ELSE {}
Settle(c, h) == IF Complete(As, c) THEN shown' = shown \cup h /\ held' = {} /\ found' = TRUE
                ELSE held' = h /\ UNCHANGED <<shown, found>>
Read ==
  /\ Ready
  /\ conf' = (IF Continues(As, conf, Byte) THEN Step(As, conf, Byte) ELSE IF Begins(As, Byte) THEN Step(As, Start, Byte) ELSE Idle)
  /\ IF conf' = Idle THEN held' = {} /\ UNCHANGED <<shown, found>>
     ELSE Settle(conf', (IF Continues(As, conf, Byte) THEN held ELSE {}) \cup Piece(conf'))
  /\ at' = at + 1 /\ UNCHANGED <<run, text, res>>
Result == [out |-> found, rv |-> Side(Stage, [i \in 1..Len(text) |-> IF i \in shown THEN text[i] ELSE 0])]
NextStage ==
  /\ Len(res) < Len(P.stages) /\ at > Len(text)
  /\ res' = Append(res, Result)
  /\ text' = (IF Len(res') = Len(P.stages) THEN <<>>
              ELSE LET s == P.stages[Len(res') + 1] IN Side(s, IF s.src = 0 THEN Runs[run].m ELSE res'[s.src].rv))
  /\ at' = 0 /\ conf' = Idle /\ held' = {} /\ shown' = {} /\ found' = FALSE /\ run' = run
Next == Read \/ NextStage
Spec == Init /\ [][Next]_vars

Done == Len(res) = Len(P.stages)
Valid == /\ \A i \in 1..Len(Runs[run].m) : Runs[run].m[i] >= 0 /\ Runs[run].m[i] < 255
         /\ P.must # 0 => res[P.must].out
Satisfiable == Done => (Runs[run].s = "sat" <=> Valid)
Outcome == IF res[P.first].out THEN res[P.first] ELSE res[P.second]
OutRight == Done /\ Valid /\ Runs[run].s = "sat" => Runs[run].o = (IF Outcome.out THEN 1 ELSE 0)
RevealRight == Done /\ Valid /\ Runs[run].s = "sat" => Runs[run].r = <<Outcome.rv>>
=============================================================================
