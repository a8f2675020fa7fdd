------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* Extraction.  From each starting position in turn, the parts are matched *)
(* one after the other; a part that cannot go on sends the search back to  *)
(* the last part with another way to end.  The first complete match gives  *)
(* the ranges.  Recorded results of the real code are compared with it.    *)
(*                                                                         *)
(* DATA: definitions (parts: pub, ast; txt).                               *)
(* RUNS: d, s (code points), lib (what the regex library itself finds in s), res: for "pub" and "all": s ("ok" or else), v *)
(*       (pairs of byte offsets), t (the strings as bytes, ts: its status).*)
(***************************************************************************)
EXTENDS Match, Json, IOUtils
LOCAL INSTANCE Regex

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Runs == TLCEval(ndJsonDeserialize(IOEnv.RUNS))

VARIABLES run,
          from,     \* the attempt starts before this character
          off,      \* and after this many bytes
          path,     \* where the parts matched so far end
          alts,     \* for each of them, the other ways to end that are left, by preference
          phase     \* "search", "found", "none"
vars == <<run, from, off, path, alts, phase>>

Parts == Data[Runs[run].d].parts
Str == Runs[run].s
Here == IF path = <<>> THEN from ELSE Last(path)

Init == run \in 1..Len(Runs) /\ from = 1 /\ off = 0 /\ path = <<>> /\ alts = <<>> /\ phase = "search"

(* ways for the next part to end *)
Ways == Ends(Parts[Len(path) + 1].ast, Str, Here)
(* the deepest part that has another way *)
Retry == {k \in 1..Len(alts) : alts[k] # <<>>}
Deepest == CHOOSE k \in Retry : \A l \in Retry : l <= k

MatchPart ==
  /\ phase = "search" /\ Len(path) < Len(Parts)
  /\ LET w == Ways IN
     IF w # <<>> THEN path' = Append(path, Head(w)) /\ alts' = Append(alts, Tail(w)) /\ UNCHANGED <<from, off, phase>>
     ELSE IF Retry # {} THEN
       /\ path' = Append(SubSeq(path, 1, Deepest - 1), Head(alts[Deepest]))
       /\ alts' = Append(SubSeq(alts, 1, Deepest - 1), Tail(alts[Deepest]))
       /\ UNCHANGED <<from, off, phase>>
     ELSE IF from <= Len(Str) THEN from' = from + 1 /\ off' = off + EncLen(Str[from]) /\ path' = <<>> /\ alts' = <<>> /\ phase' = phase
     ELSE phase' = "none" /\ UNCHANGED <<from, off, path, alts>>
  /\ run' = run
Found == /\ phase = "search" /\ Len(path) = Len(Parts)
         /\ phase' = "found" /\ UNCHANGED <<run, from, off, path, alts>>
Next == MatchPart \/ Found
Spec == Init /\ [][Next]_vars

(* byte offset of the place before character i of the match *)
RECURSIVE Off(_, _)
Off(s, i) == IF i <= from THEN off ELSE EncLen(s[i - 1]) + Off(s, i - 1)
RECURSIVE Bytes(_, _, _)
Bytes(s, i, j) == IF i >= j THEN <<>> ELSE Enc(s[i]) \o Bytes(s, i + 1, j)
Begin(k) == IF k = 1 THEN from ELSE path[k - 1]
Chosen(all) == SelectSeq([k \in 1..Len(Parts) |-> k], LAMBDA k : all \/ Parts[k].pub)
Ranges(all) == [q \in 1..Len(Chosen(all)) |-> LET k == Chosen(all)[q] IN <<Off(Str, Begin(k)), Off(Str, path[k])>>]
Texts(all) == [q \in 1..Len(Chosen(all)) |-> LET k == Chosen(all)[q] IN Bytes(Str, Begin(k), path[k])]

Res(all) == IF all THEN Runs[run].all ELSE Runs[run].pub
Whole == <<Off(Str, from), Off(Str, Here)>>
(* The regex library, called on the joined parts by the harness itself, finds another match than the leftmost one: a finding about   *)
(* the library.  zk-regex then has to pass on just what the library finds.                                                            *)
Mistaken == Runs[run].lib # Whole /\ Runs[run].lib[1] >= 0
LibraryRight == (phase = "found" => ~Mistaken) /\ (phase = "none" => Runs[run].lib[1] < 0)
Passed(v) == Len(v) = Len(Parts) /\ v[1][1] = Runs[run].lib[1] /\ v[Len(v)][2] = Runs[run].lib[2]
RangesRight == phase = "found" => \A all \in {TRUE, FALSE} : Runs[run].has[IF all THEN 2 ELSE 1] =>
    Res(all).s = "ok" /\ (IF Mistaken THEN all => Passed(Res(all).v) ELSE Res(all).v = Ranges(all))
TextsRight == phase = "found" => \A all \in {TRUE, FALSE} : Runs[run].has[IF all THEN 4 ELSE 3] =>
    Res(all).ts = "ok" /\ (~Mistaken => Res(all).t = Texts(all))
FailsRight == phase = "none" /\ Runs[run].lib[1] < 0 => \A all \in {TRUE, FALSE} :
    /\ Runs[run].has[IF all THEN 2 ELSE 1] => Res(all).s = "err"
    /\ Runs[run].has[IF all THEN 4 ELSE 3] => Res(all).ts = "err"
=============================================================================
