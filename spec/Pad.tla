-------------------------------- MODULE Pad --------------------------------
(***************************************************************************)
(* Padding, byte by byte: first the encoding of the string, then zeros up  *)
(* to the size asked for; a string that needs more bytes is refused.       *)
(* Recorded results of the real code are compared with the outcome.        *)
(* RUNS: s (code points), n (size), st ("ok" or how it failed), v (bytes). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE Regex

Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
VARIABLES run,
          next,    \* the character to encode next
          out,     \* bytes of characters written
          zeros,   \* how many zeros after them
          st       \* "busy", "done", "refused"
vars == <<run, next, out, zeros, st>>

R == Runs[run]
Init == run \in 1..Len(Runs) /\ next = 1 /\ out = <<>> /\ zeros = 0 /\ st = "busy"
Encode == /\ st = "busy" /\ next <= Len(R.s)
          /\ IF Len(out) + EncLen(R.s[next]) > R.n THEN st' = "refused" /\ UNCHANGED <<next, out>>
             ELSE out' = out \o Enc(R.s[next]) /\ next' = next + 1 /\ st' = st
          /\ zeros' = zeros
(* one zero at a time; many at a time where there are many *)
Stride == IF R.n > 2000 THEN 16384 ELSE 1
Least(a, b) == IF a < b THEN a ELSE b
Zero == /\ st = "busy" /\ next > Len(R.s) /\ Len(out) + zeros < R.n
        /\ zeros' = zeros + Least(Stride, R.n - Len(out) - zeros) /\ UNCHANGED <<next, out, st>>
Finish == /\ st = "busy" /\ next > Len(R.s) /\ Len(out) + zeros = R.n
          /\ st' = "done" /\ UNCHANGED <<next, out, zeros>>
Next == run' = run /\ (Encode \/ Zero \/ Finish)
Spec == Init /\ [][Next]_vars

TypeOK == Len(out) + zeros <= R.n /\ \A i \in 1..Len(out) : out[i] \in 0..255
(* nothing is lost: as long as zeros are not reached, what is written is the encoding of what is read *)
Padded == st = "done" => R.st = "ok" /\ R.v = out \o [i \in 1..zeros |-> 0]
Refused == st = "refused" => R.st # "ok"
=============================================================================
