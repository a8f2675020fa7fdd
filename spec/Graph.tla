------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The reachable scanner configurations of each definition; every          *)
(* transition is printed.  lib/scan.py turns this graph into messages that *)
(* take every transition of the specification in the real circuit.         *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)
Auto == TLCEval([dd \in D |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> TLCEval(Nfa(Data[dd].parts[i].ast))])])
Cls  == TLCEval([dd \in D |-> TLCEval(Classes(Auto[dd]))])

VARIABLES def, conf
Init == def \in D /\ conf = (IF Begins(Auto[def], Marker) THEN Step(Auto[def], Start, Marker) ELSE Idle)

Show(kind, lo, hi, to) ==
  PrintT("@@" \o ToString(def) \o "|" \o ToString(conf) \o "|" \o kind \o "|" \o ToString(lo) \o "|" \o ToString(hi) \o "|" \o
         ToString(to) \o "|" \o ToString(IF Complete(Auto[def], to) THEN 1 ELSE 0) \o "|" \o
         ToString(IF to = Idle THEN 0 ELSE to[1]))
Continue(lo, hi) ==
  /\ Continues(Auto[def], conf, lo)
  /\ conf' = Step(Auto[def], conf, lo)
  /\ Show("c", lo, hi, conf')
Restart(lo, hi) ==
  /\ ~Continues(Auto[def], conf, lo) /\ Begins(Auto[def], lo)
  /\ conf' = Step(Auto[def], Start, lo)
  /\ Show(IF conf = Idle THEN "b" ELSE "r", lo, hi, conf')
Ignore(lo, hi) ==
  /\ ~Continues(Auto[def], conf, lo) /\ ~Begins(Auto[def], lo)
  /\ conf' = Idle
  /\ Show(IF conf = Idle THEN "i" ELSE "a", lo, hi, conf')
Next == /\ def' = def
        /\ \E k \in 1..Len(Cls[def]) :
             LET lo == Max2(1, Cls[def][k][1])
                 hi == Min2(254, Cls[def][k][2])
             IN lo <= hi /\ (Continue(lo, hi) \/ Restart(lo, hi) \/ Ignore(lo, hi))
Spec == Init /\ [][Next]_<<def, conf>>
InitShown == PrintT("@@I|" \o ToString(def) \o "|" \o ToString(conf)) /\ TRUE
Types == conf = Idle \/ conf[1] \in 1..Len(Auto[def])
=============================================================================
