------------------------------ MODULE FrontGen ------------------------------
(***************************************************************************)
(* Histories of requests.  A request is put together field by field, then  *)
(* carried out.  A request can run together with the one before it when    *)
(* both are commands and no file is asked for by both.                     *)
(***************************************************************************)
EXTENDS Front

VARIABLES hist,      \* the requests that are complete
          req        \* the fields of the next request so far
vars == <<hist, req>>

Steps == atoi(IOEnv.STEPS)
Init == hist = <<>> /\ req = <<>>

Fronts == <<"cli", "long", "lib", "cfg", "js", "dfa">>
Field(n) ==
  LET js == n > 1 /\ req[1] \in {"js", "dfa"}
      dec == {d \in 1..Len(Defs) : Defs[d].mode = "dec"}
  IN CASE n = 1 -> {Fronts[i] : i \in 1..Len(Fronts)}
       [] n = 2 -> IF req[1] = "cfg" THEN {d \in dec : Defs[d].given} ELSE IF js THEN {d \in 1..Len(Defs) : Defs[d].given /\ (req[1] = "js" \/ d \in dec)} ELSE 1..Len(Defs)
       [] n = 3 -> 1..2                                              \* how the definition is written
       [] n = 4 -> IF js \/ req[1] = "cfg" THEN {0} ELSE 0..2        \* halo2
       [] n = 5 -> IF js THEN {0} ELSE 0..2                          \* circuit
       [] n = 6 -> IF js THEN 1..2 ELSE 0..2                         \* template name
       [] n = 7 -> IF js THEN {0} ELSE 0..2                          \* substrings
       [] n = 8 -> 0..1                                              \* relative or absolute paths
       [] n = 9 -> 0..1                                              \* together with the request before
Record(q) == [front |-> q[1], d |-> q[2], v |-> q[3], halo |-> q[4], circ |-> q[5], t |-> q[6], gs |-> q[7], rel |-> q[8], with |-> q[9]]
Command(r) == r.front \in {"cli", "long"}
Fits(r) == r.with = 1 => /\ Len(hist) > 0 /\ Command(r) /\ Command(hist[Len(hist)]) /\ hist[Len(hist)].with = 0
                         /\ Asked(r) \cap Asked(hist[Len(hist)]) = {}
Fill == /\ Len(hist) < Steps /\ Len(req) < 9
        /\ \E x \in Field(Len(req) + 1) : req' = Append(req, x)
        /\ UNCHANGED hist
Carry == /\ Len(req) = 9
         /\ LET r == Record(req) IN hist' = Append(hist, IF Fits(r) THEN r ELSE [r EXCEPT !.with = 0])
         /\ req' = <<>>
Next == Fill \/ Carry
Spec == Init /\ [][Next]_vars
Printed == (Len(hist) = Steps) => PrintT("@@" \o ToJson(hist))
=============================================================================
