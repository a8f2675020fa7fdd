----------------------------- MODULE Constrain -----------------------------
(***************************************************************************)
(* What a circuit may do with its signals.  A circuit, laid out at one     *)
(* size, is a sequence of events: inputs are given, signals are defined by *)
(* a constraint (<==, circomlib gadgets), only computed (<--), constrained *)
(* (===), and finally put out.  A signal is fixed when constraints leave   *)
(* one value for it, given the input.                                      *)
(*                                                                         *)
(* DATA: one circuit per line: ev = sequence of <<kind, targets, reads>>,  *)
(* nsig, iface = the inputs and outputs it has, want = those it must have, *)
(* forced = how many of its recorded runs need other values than computed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
D == 1..Len(Data)
Kind(e) == e[1]
Targets(e) == ToSet(e[2])
Reads(e) == ToSet(e[3])
Assigns(e) == Kind(e) \in {"in", "def", "hint"}

(* the event that assigns each signal first (0: none) *)
First == TLCEval([c \in D |-> TLCEval(
  LET ev == Data[c].ev
      pairs == UNION {{<<s, i>> : s \in Targets(ev[i])} : i \in {j \in 1..Len(ev) : Assigns(ev[j])}}
      g == [s \in 0..(Data[c].nsig - 1) |-> 0]
      step(f, p) == IF f[p[1]] = 0 \/ f[p[1]] > p[2] THEN [f EXCEPT ![p[1]] = p[2]] ELSE f
  IN FoldSet(LAMBDA p, f : step(f, p), g, pairs))])

VARIABLES cir,      \* which circuit
          pc,     \* next event
          loose,      \* assigned, but constraints do not fix the value yet
          wrong     \* "" or what went wrong
vars == <<cir, pc, loose, wrong>>

Init == cir \in D /\ pc = 1 /\ loose = {} /\ wrong = ""

Ev == Data[cir].ev[pc]
Assigned(s) == First[cir][s] # 0 /\ First[cir][s] < pc
Fixed(s) == Assigned(s) /\ s \notin loose
Fail(why) == wrong' = why /\ UNCHANGED loose
Common == /\ wrong = "" /\ pc <= Len(Data[cir].ev)
          /\ pc' = pc + 1 /\ cir' = cir

Input == /\ Common /\ Kind(Ev) = "in"
         /\ UNCHANGED <<loose, wrong>>
Define ==
  /\ Common /\ Kind(Ev) = "def"
  /\ IF \E s \in Targets(Ev) : First[cir][s] # pc THEN Fail("a signal is assigned twice")
     ELSE IF \E s \in Reads(Ev) : ~Assigned(s) THEN Fail("a signal is read before it is assigned")
     ELSE /\ wrong' = ""
          /\ loose' = IF Reads(Ev) \cap loose # {} THEN loose \cup Targets(Ev) ELSE loose
Compute ==
  /\ Common /\ Kind(Ev) = "hint"
  /\ IF \E s \in Targets(Ev) : First[cir][s] # pc THEN Fail("a signal is assigned twice")
     ELSE IF \E s \in Reads(Ev) : ~Assigned(s) THEN Fail("a signal is read before it is assigned")
     ELSE wrong' = "" /\ loose' = loose \cup Targets(Ev)
(* a constraint fixes the one loose signal it reads, if it is linear in it *)
Constrain ==
  /\ Common /\ Kind(Ev) = "chk"
  /\ IF \E s \in Reads(Ev) : ~Assigned(s) THEN Fail("a constraint reads a signal that is never assigned")
     ELSE LET l == Reads(Ev) \cap loose IN
          /\ wrong' = ""
          /\ loose' = IF Cardinality(l) = 1 /\ l \subseteq Targets(Ev) THEN loose \ l ELSE loose
Output ==
  /\ Common /\ Kind(Ev) = "out"
  /\ IF \E s \in Targets(Ev) : ~Assigned(s) THEN Fail("an output is never assigned")
     ELSE IF Targets(Ev) \cap loose # {} THEN Fail("constraints do not fix an output")
     ELSE UNCHANGED <<loose, wrong>>
Next == Input \/ Define \/ Compute \/ Constrain \/ Output
Spec == Init /\ [][Next]_vars

WellFormed == wrong = ""
(* (a signal that is declared but neither assigned nor read constrains nothing) *)
AllFixed == (wrong = "" /\ pc > Len(Data[cir].ev)) => loose = {}
(* In no recorded run do the constraints leave another value for a computed signal than the one that is computed. *)
Tied == pc = 1 => Data[cir].forced = 0
Interface == pc = 1 => Data[cir].iface = Data[cir].want
=============================================================================
