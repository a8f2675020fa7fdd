------------------------------ MODULE FrontRun ------------------------------
(***************************************************************************)
(* Recorded histories of requests against the specification.               *)
(*                                                                         *)
(* RUNS: first (what every path holds at first), bad (paths that cannot be *)
(* written), quota (bytes that fit in a file; -1: no bound), steps: a      *)
(* request with s ("ok", "err", "panic"), said (an error message was       *)
(* given), ret (what JavaScript returned), files (what every path holds    *)
(* afterwards, when the request that ran together with it has ended too),  *)
(* look (FALSE for the first of two that ran together).                    *)
(***************************************************************************)
EXTENDS Front

Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
VARIABLES run, at, files
vars == <<run, at, files>>

R == Runs[run]
S == R.steps[at]
Init == run \in 1..Len(Runs) /\ at = 0 /\ files = Runs[run].first

Fails(r, p) == \/ \E i \in 1..Len(R.bad) : R.bad[i] = p
               \/ R.quota >= 0 /\ Outputs[Out(r, p)].size > R.quota
Done(r) == Possible(r) /\ \A p \in Asked(r) : ~Fails(r, p)
(* What a request that could not write everything leaves at the paths it was asked to write is not said.  One that is *)
(* refused leaves everything as it was, but for tables that are possible when only the circuit is not, or the reverse. *)
Partly(r, p) == IF Paths[p].kind = "c" THEN r.t > 0 /\ CircuitPossible(Def(r), Substrings(r)) ELSE TablesPossible(Def(r), Substrings(r))
Next == /\ at < Len(R.steps)
        /\ at' = at + 1 /\ run' = run
        /\ LET r == R.steps[at + 1]
           IN files' = IF Done(r) THEN Written(r, files)
                       ELSE IF ~Possible(r) THEN [p \in 1..Len(Paths) |->
                              IF p \in Asked(r) /\ Partly(r, p) /\ (r.files[p] = Outputs[Out(r, p)].id \/ Fails(r, p)) THEN r.files[p] ELSE files[p]]
                       ELSE [p \in 1..Len(Paths) |-> IF p \in Asked(r) THEN r.files[p] ELSE files[p]]
Spec == Init /\ [][Next]_vars

Wants(r) == r.circ > 0 \/ r.halo > 0 \/ r.front \in {"js", "dfa", "args"}
NoPanic == at > 0 => S.s # "panic"
StatusRight == at > 0 /\ Wants(S) => (S.s = "ok" <=> Done(S))
ErrorsTold == at > 0 => (S.s = "ok" \/ S.said)
FilesRight == at > 0 /\ S.look => S.files = files
ReturnRight == at > 0 /\ S.front \in {"js", "dfa"} /\ S.s = "ok" /\ Possible(S) /\ (S.front = "js" \/ TablesPossible(Def(S), FALSE)) => S.ret = Returned(S)
=============================================================================
