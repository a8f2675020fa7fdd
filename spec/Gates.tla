------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* The shipped helper templates as machines that read their inputs one     *)
(* after another, at every width: MultiOR (is any input 1), MultiNOR (is   *)
(* none), ORAnd (the first or the second, and the third), IsNotZeroAcc     *)
(* (the accumulator, one more if the input is not zero).  RUNS: recorded   *)
(* runs of the real templates: h (template), m (inputs), s ("ok" or        *)
(* "unsat"), o (output).  Inputs of the first three are bits.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
VARIABLES run,
          pos,     \* next input
          val     \* what the inputs read so far make
vars == <<run, pos, val>>

R == Runs[run]
N == Len(R.m)
Start == CASE R.h = "MultiOR" -> 0
           [] R.h = "MultiNOR" -> 1
           [] R.h = "ORAnd" -> 0
           [] R.h = "IsNotZeroAcc" -> 0
Init == run \in 1..Len(Runs) /\ pos = 1 /\ val = Start
Or(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
Step(x) == CASE R.h = "MultiOR" -> Or(val, x)
             [] R.h = "MultiNOR" -> IF x = 1 THEN 0 ELSE val
             [] R.h = "ORAnd" -> IF pos < 3 THEN Or(val, x) ELSE val * x
             [] R.h = "IsNotZeroAcc" -> IF pos = 1 THEN x ELSE val + (IF x = 0 THEN 0 ELSE 1)
Next == /\ pos <= N /\ run' = run
        /\ pos' = pos + 1 /\ val' = Step(R.m[pos])
Spec == Init /\ [][Next]_vars

Done == pos > N
BitsOnly == R.h # "IsNotZeroAcc" => /\ val \in {0, 1}
                                    /\ \A i \in 1..N : R.m[i] \in {0, 1}
(* the circuit has a witness, and its output is what the machine computes *)
Satisfied == Done => R.s = "ok"
OutRight == (Done /\ R.s = "ok") => R.o = val
(* what the machine computes, said at once *)
Meaning == Done => CASE R.h = "MultiOR" -> (val = 1) <=> \E i \in 1..N : R.m[i] = 1
                     [] R.h = "MultiNOR" -> (val = 1) <=> \A i \in 1..N : R.m[i] = 0
                     [] R.h = "ORAnd" -> (val = 1) <=> (R.m[1] = 1 \/ R.m[2] = 1) /\ R.m[3] = 1
                     [] R.h = "IsNotZeroAcc" -> val - R.m[1] = (IF R.m[2] = 0 THEN 0 ELSE 1)
=============================================================================
