----------------------------- MODULE Automaton -----------------------------
(***************************************************************************)
(* The compiled table and the definition, read in lock step.  Every state  *)
(* pair reachable by any byte string of any length is visited: a run that  *)
(* ends without a bad state shows that the table reads exactly what the    *)
(* definition means, gives every byte to the right part, and marks the     *)
(* right places as the beginning and the end of each public part.          *)
(***************************************************************************)
EXTENDS Parts, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)
Auto == TLCEval([x \in D |-> TLCEval([i \in 1..Len(Data[x].parts) |-> TLCEval(Nfa(Data[x].parts[i].ast))])])
Cls  == TLCEval([x \in D |-> TLCEval(Classes(Auto[x]))])
Pub  == TLCEval([x \in D |-> TLCEval([i \in 1..Len(Data[x].parts) |-> Data[x].parts[i].k])])
(* edges of public part k (0-based) as a set of <<from, to>> *)
Sub  == TLCEval([x \in D |-> TLCEval([k \in 1..Len(Data[x].subs) |-> TLCEval(ToSet(Data[x].subs[k].edges))])])
Beg  == TLCEval([x \in D |-> TLCEval([k \in 1..Len(Data[x].subs) |-> ToSet(Data[x].subs[k].starts)])])
End  == TLCEval([x \in D |-> TLCEval([k \in 1..Len(Data[x].subs) |-> ToSet(Data[x].subs[k].ends)])])

VARIABLES def,     \* which definition
          state,     \* state of the compiled table
          conf,     \* configuration of the definition
          byte,  \* the byte just read (not part of the state's identity)
          bad    \* "" or what went wrong
vars == <<def, state, conf, byte, bad>>
View == <<def, state, conf, bad>>

Init ==
  /\ def \in D
  /\ state = 0 /\ conf = Start /\ byte = -1
  /\ bad = IF Data[def].dup # <<>> THEN "two transitions on the same byte" ELSE ""

Labels(dd, from, to) == {k \in 1..Len(Sub[dd]) : <<from, to>> \in Sub[dd][k]}
Want(dd, cc) == IF Pub[dd][cc[1]] < 0 THEN {} ELSE {Pub[dd][cc[1]] + 1}

Read(lo, hi) ==
  LET c2 == Step(Auto[def], conf, lo) IN
  \E b \in lo..hi :
    LET q2 == Data[def].delta[state + 1][b + 1] IN
    /\ ~(q2 = -1 /\ c2 = Dead)
    /\ def' = def /\ byte' = b
    /\ state' = q2 /\ conf' = c2
    /\ bad' = IF q2 = -1 THEN "the definition reads this byte, the table does not"
              ELSE IF c2 = Dead THEN "the table reads this byte, the definition does not"
              ELSE IF Data[def].subs # <<>> /\ Labels(def, state, q2) # Want(def, c2)
                   THEN "the byte is attributed to the wrong public part"
              ELSE ""

Next == /\ bad = ""
        /\ \E k \in 1..Len(Cls[def]) : Read(Cls[def][k][1], Cls[def][k][2])
Spec == Init /\ [][Next]_vars

NothingBad == bad = ""
AcceptAgrees == bad = "" => ((state \in ToSet(Data[def].accept)) <=> Accepts(Auto[def], conf))
BoundariesAgree ==
  (bad = "" /\ Data[def].bounds) =>
    \A i \in 1..Len(Data[def].parts) :
      LET k == Pub[def][i] + 1 IN
      k > 0 =>
        /\ (state \in Beg[def][k]) <=> (IF i = 1 THEN conf = Start ELSE DoneUpTo(Auto[def], conf, i - 1))
        /\ (state \in End[def][k]) <=> DoneUpTo(Auto[def], conf, i)
=============================================================================
