------------------------------ MODULE FrontOne ------------------------------
(***************************************************************************)
(* Single requests in every environment: each definition with each front   *)
(* end and each combination of outputs, and, for some definitions, with    *)
(* paths that cannot be written (a full device, a directory or a loop of   *)
(* links in the file's place; no directory, or a file, in the directory's  *)
(* place) and with a bound for the size of files, at and just below the    *)
(* size of each output.  Every pair is printed.                            *)
(***************************************************************************)
EXTENDS Front

Fronts == <<"cli", "long", "lib", "cfg", "js", "dfa", "args">>
Fit(f, d) == CASE f = "args" -> Defs[d].mode = "args"
               [] f \in {"cfg", "dfa"} -> Defs[d].mode = "dec" /\ Defs[d].text
               [] f = "js" -> Defs[d].mode \in {"dec", "raw"} /\ Defs[d].text
               [] OTHER -> Defs[d].mode \in {"dec", "raw"}
Wanted(f) == CASE f \in {"js", "dfa"} -> {<<0, 0, 1>>}
               [] f = "args" -> {<<0, 0, 0>>}
               [] f = "cfg" -> {<<0, 1, 1>>, <<0, 1, 0>>}
               [] OTHER -> {<<0, 1, 1>>, <<1, 0, 0>>, <<2, 2, 2>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 0>>}
(* which of the two ways of writing the definition, and whether paths are relative, is spread over the requests *)
Request(f, d, w, g) == [front |-> f, d |-> d, v |-> 1 + ((d + w[1] + g) % 2), halo |-> w[1], circ |-> w[2], t |-> w[3], gs |-> g,
                        rel |-> (d + g + w[3]) % 2, with |-> 0]
Plain == {Request(f, d, w, g) : f \in {Fronts[i] : i \in 1..Len(Fronts)}, d \in 1..Len(Defs), w \in {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 0, 0>>,
          <<2, 2, 2>>, <<1, 1, 0>>, <<0, 1, 0>>}, g \in 0..2}
Sensible(r) == Fit(r.front, r.d) /\ <<r.halo, r.circ, r.t>> \in Wanted(r.front) /\ (r.front \in {"js", "dfa", "args"} => r.gs = 0)

Same(p) == {x \in 1..Len(Paths) : Paths[x].kind = Paths[p].kind /\ Paths[x].dir = Paths[p].dir}
Faults(r) == {[how |-> h, at |-> p, bad |-> IF h \in {"gone", "file"} THEN Same(p) ELSE {p}] :
                h \in {"full", "dir", "loop", "gone", "file"}, p \in {x \in 1..Len(Paths) : Paths[x].kind # "o" /\ (Paths[x].kind = "h" => Paths[x].dir = 1)}}
Real(f) == f.how \in {"gone", "file"} => (Paths[f.at].kind = "c" => Paths[f.at].dir = 2) /\ (Paths[f.at].kind = "h" => Paths[f.at].k = 0)
Sizes(r) == LET s == {Outputs[i].size : i \in {i \in 1..Len(Outputs) : Outputs[i].d = r.d}} IN {0} \cup s \cup {x - 1 : x \in s \ {0}}
Tried(r) == Defs[r.d].faults /\ r.front \in {"cli", "lib"} /\ r.t < 2 /\ ~(r.circ = 1 /\ r.t = 0) /\ (r.halo > 0 \/ r.circ > 0)
Both(r) == [r EXCEPT !.halo = 1, !.circ = 1, !.t = 1]
Far(r) == [r EXCEPT !.circ = 2, !.t = 1]

VARIABLES req, bad, quota
None == [how |-> "none", at |-> 0, bad |-> {}]
Init == LET rs == {r \in Plain : Sensible(r)}
            ts == {Both(r) : r \in {r \in rs : Tried(r)}} \cup {Far(r) : r \in {r \in rs : Tried(r)}} \cup {r \in rs : Tried(r)}
        IN \/ req \in rs /\ bad = None /\ quota = -1
           \/ req \in ts /\ bad \in {f \in Faults(req) : Real(f)} /\ quota = -1
           \/ req \in ts /\ bad = None /\ quota \in Sizes(req)
Next == FALSE /\ UNCHANGED <<req, bad, quota>>
Spec == Init /\ [][Next]_<<req, bad, quota>>
Printed == PrintT("@@" \o ToJson([req |-> req, how |-> bad.how, at |-> bad.at, bad |-> bad.bad, quota |-> quota]))
=============================================================================
