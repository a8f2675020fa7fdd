------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* Extraction and the circuit of one definition on one text.               *)
(*                                                                         *)
(* A match is a sequence of borders e0 <= e1 <= ... <= en, part i reading  *)
(* from e(i-1) to ei (positions in the text with the start marker in       *)
(* front).  All matches are enumerated.  The scan is followed to see where *)
(* its attempts begin: when the one match there is begins with an attempt  *)
(* (no earlier attempt ran into it), both sides have to find it and agree  *)
(* on every byte.  When there is no match, both have to say so.            *)
(*                                                                         *)
(* DATA: parts, end, npub, det (no byte can be read by two parts).         *)
(* RUNS: d, m (bytes), n (circuit size), o, r, s; ok, v (extraction's      *)
(* status and ranges).                                                     *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))
Auto == TLCEval([dd \in 1..Len(Data) |-> TLCEval([i \in 1..Len(Data[dd].parts) |-> TLCEval(Nfa(Data[dd].parts[i].ast))])])

VARIABLES run, at, conf, begun, matches
vars == <<run, at, conf, begun, matches>>

R == Runs[run]
As == Auto[R.d]
Full == <<Marker>> \o R.m
RECURSIVE Reach(_, _, _), Ways(_, _)
(* where part i can end that has read up to p and stands at the positions S *)
Reach(i, S, p) ==
  (IF Final(As[i], S) THEN {p} ELSE {}) \cup
  (IF p = Len(Full) THEN {} ELSE LET T == TLCEval(Move(As[i], S, Full[p + 1])) IN IF T = {} THEN {} ELSE Reach(i, T, p + 1))
Ways(i, p) ==
  IF i > Len(As) THEN (IF Data[R.d].end /\ p # Len(Full) THEN {} ELSE {<<p>>})
  ELSE UNION {{<<p>> \o w : w \in Ways(i + 1, e)} : e \in Reach(i, {0}, p)}
InText(w) == [k \in DOMAIN w |-> Max2(0, w[k] - 1)]
AllWays == UNION {Ways(1, p) : p \in 0..Len(Full)}

Init == run \in 1..Len(Runs) /\ at = 0 /\ conf = Idle /\ begun = {} /\ matches = {}
Byte == Full[at + 1]
Go == /\ at < Len(Full) /\ Continues(As, conf, Byte)
      /\ conf' = Step(As, conf, Byte) /\ begun' = begun
Begin == /\ at < Len(Full) /\ ~Continues(As, conf, Byte) /\ Begins(As, Byte)
         /\ conf' = Step(As, Start, Byte) /\ begun' = begun \cup {at}
Skip == /\ at < Len(Full) /\ ~Continues(As, conf, Byte) /\ ~Begins(As, Byte)
        /\ conf' = Idle /\ begun' = begun
Next == /\ run' = run /\ at' = at + 1
        /\ Go \/ Begin \/ Skip
        /\ matches' = IF at + 1 = Len(Full) THEN AllWays ELSE {}
Spec == Init /\ [][Next]_vars

Done == at = Len(Full)
OneMatch == Cardinality({InText(w) : w \in matches}) = 1
Decides == Done /\ Data[R.d].det /\ OneMatch /\ \E w \in matches : w[1] \in begun
NoMatch == Done /\ matches = {} => R.s = "sat" /\ R.o = 0 /\ ~R.ok
BothFind == Decides => R.s = "sat" /\ R.o = 1 /\ R.ok
SameBytes ==
  Decides /\ R.s = "sat" /\ R.ok =>
    /\ Len(R.v) = Data[R.d].npub /\ Len(R.r) = Len(R.v)
    /\ \A k \in 1..Len(R.v) : \A j \in 1..R.n : R.r[k][j] = (IF R.v[k][1] < j /\ j <= R.v[k][2] THEN R.m[j] ELSE 0)
Decided == Decides => PrintT("@@D")
=============================================================================
