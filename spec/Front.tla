------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* Requests to the front ends and the files of a directory.                *)
(*                                                                         *)
(* A request names a definition, how it is written down, the outputs that  *)
(* are asked for (halo2 directory, circuit file; 0: none), a template name *)
(* and whether substrings are generated, and the front end: the command    *)
(* line with short or long options, the library, the library with one      *)
(* configuration object for all requests of a history, and JavaScript,     *)
(* which returns the circuit's text ("js") or the automaton ("dfa").        *)
(* Command lines that are no requests are the front end "args".            *)
(*                                                                         *)
(* The state is what every file holds: 0 nothing, -p what was at path p at *)
(* first, and otherwise the number of an output, which is a function of    *)
(* the definition, the template name and the effective choice about        *)
(* substrings alone.                                                       *)
(*                                                                         *)
(* DEFS: definitions; their features are                                   *)
(*   mode      "dec", "raw" or "args"                                      *)
(*   given     the file is there and is well-formed JSON of the right shape *)
(*   syntax    every regex is one the automata library can compile         *)
(*   parts     number of parts                                             *)
(*   anchors   ^ and $ are only in places where they are supported         *)
(*   accepts   number of accepting states                                  *)
(*   moves     some text other than the empty one matches, and the         *)
(*             automaton's initial state is not accepting                  *)
(*   publics   number of public parts, or of sets of transitions           *)
(*   silent    some public part reads nothing, or leads back to the        *)
(*             initial state                                               *)
(* PATHS: kind "c" (a circuit), "h" (a table; k = 0 for all, else k-th     *)
(* substring) or "o" (other), dir, k.                                      *)
(* OUTPUTS: kind, d, t, gs, k, id (the same for outputs that are the same  *)
(* text), size.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Defs == TLCEval(ndJsonDeserialize(IOEnv.DEFS))
Paths == TLCEval(ndJsonDeserialize(IOEnv.PATHS))
Outputs == TLCEval(ndJsonDeserialize(IOEnv.OUTPUTS))

Def(r) == Defs[r.d]
(* substrings are generated for raw definitions, and not for decomposed ones, unless the request says so *)
Substrings(r) == IF r.front = "js" THEN TRUE ELSE IF r.gs # 0 THEN r.gs = 1 ELSE Def(r).mode = "raw"

Compiles(d) == d.given /\ d.syntax /\ d.parts > 0 /\ d.anchors /\ d.accepts > 0
CircuitPossible(d, gs) == Compiles(d) /\ d.accepts = 1 /\ d.moves /\ (gs => ~d.silent)
TablesPossible(d, gs) == Compiles(d) /\ d.accepts = 1 /\ (gs => d.mode = "dec" \/ d.publics = 0)

Asked(r) == {p \in 1..Len(Paths) :
               \/ Paths[p].kind = "c" /\ Paths[p].dir = r.circ
               \/ Paths[p].kind = "h" /\ Paths[p].dir = r.halo
                  /\ (Paths[p].k = 0 \/ (Substrings(r) /\ Paths[p].k <= Def(r).publics))}
Possible(r) == /\ r.circ > 0 => r.t > 0 /\ CircuitPossible(Def(r), Substrings(r))
               /\ r.halo > 0 => TablesPossible(Def(r), Substrings(r))
               /\ r.front = "js" => CircuitPossible(Def(r), TRUE)
               /\ r.front = "dfa" => Compiles(Def(r))
               /\ r.front = "args" => Def(r).given

(* the output that a request puts at a path: its place in OUTPUTS *)
Place == TLCEval([x \in {<<o.kind, o.d, o.t, o.gs, o.k>> : o \in {Outputs[i] : i \in 1..Len(Outputs)}} |->
                   CHOOSE i \in 1..Len(Outputs) : <<Outputs[i].kind, Outputs[i].d, Outputs[i].t, Outputs[i].gs, Outputs[i].k>> = x])
Out(r, p) == IF Paths[p].kind = "c" THEN Place[<<"c", r.d, r.t, Substrings(r), 0>>]
                                    ELSE Place[<<"h", r.d, 0, FALSE, Paths[p].k>>]
Returned(r) == Outputs[Place[IF r.front = "js" THEN <<"c", r.d, r.t, TRUE, 0>> ELSE <<"h", r.d, 0, FALSE, 0>>]].id

Written(r, fs) == [p \in 1..Len(Paths) |-> IF p \in Asked(r) THEN Outputs[Out(r, p)].id ELSE fs[p]]
=============================================================================
