-------------------------------- MODULE XxGen -------------------------------
(* Behaviours of the C++ objects of one pairing: construction, copying,       *)
(* destruction, assignment (also to itself), operators with every aliasing,   *)
(* conversion to and from bytes of right and wrong lengths, pairings of all   *)
(* mixtures of groups.  Objects: a name is kind letter and number.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Depth, NoEmit
VARIABLES h, live, nx
vars == <<h, live, nx>>
Groups == {"p", "q", "t", "z"}                       \* G1, G2, GT, Zr
Names(g) == {<<g, k>> : k \in 1..3}
Live(g) == live \cap Names(g)
Emit(r) == NoEmit \/ PrintT("XX " \o ToJson(r))
Init == h = <<>> /\ live = UNION {{<<g, 1>>, <<g, 2>>} : g \in Groups} /\ nx = <<>>
Pick == nx = <<>> /\ Len(h) < Depth /\ UNCHANGED <<h, live>> /\ \E k \in Kinds, g \in Groups : nx' = <<k, g>>
g0 == nx[2]
Do(s) == h' = Append(h, s) /\ nx' = <<>> /\ (Len(h) + 1 = Depth => Emit(h'))
Skip == nx' = <<>> /\ UNCHANGED <<h, live>>
Step == /\ nx # <<>>
        /\ CASE nx[1] = "new" -> (IF Live(g0) = Names(g0) THEN Skip ELSE \E x \in Names(g0) \ live : Do(<<"new", x>>) /\ live' = live \cup {x})
             [] nx[1] = "copy" -> (IF Live(g0) = Names(g0) THEN Skip ELSE \E x \in Names(g0) \ live, y \in Live(g0) : Do(<<"copy", x, y>>) /\ live' = live \cup {x})
             [] nx[1] = "del" -> (IF Cardinality(Live(g0)) < 2 THEN Skip ELSE \E x \in Live(g0) : Do(<<"del", x>>) /\ live' = live \ {x})
             [] nx[1] = "un" -> (\E x, y \in Live(g0), o \in {"set", "neg", "dbl", "sq", "inv"} : Do(<<o, x, y>>)) /\ UNCHANGED live
             [] nx[1] = "bin" -> (\E x, y, w \in Live(g0), o \in {"add", "sub", "mul", "div"} : Do(<<o, x, y, w>>)) /\ UNCHANGED live
             [] nx[1] = "scale" -> (IF g0 = "z" THEN Skip ELSE (\E x, y \in Live(g0), w \in Live("z"), o \in {"mulzn", "powzn", "mulmpz", "powmpz"} : Do(<<o, x, y, w>>)) /\ UNCHANGED live)
             [] nx[1] = "val" -> (\E x \in Live(g0), o \in {"set0", "set1", "random", "hash", "setsi", "setmpz"} : Do(<<o, x>>)) /\ UNCHANGED live
             [] nx[1] = "cmp" -> (\E x, y \in Live(g0) : Do(<<"cmp", x, y>>)) /\ UNCHANGED live
             [] nx[1] = "size" -> (\E x, y \in Live(g0), d \in {"+0", "+1", "-1", "0", "+13"} : Do(<<"xsize", x, y, d>>)) /\ UNCHANGED live
             [] nx[1] = "pair" -> (\E u \in Live("t"), m \in {<<"p", "q">>, <<"p", "p">>, <<"q", "q">>} : \E x \in Live(m[1]), y \in Live(m[2]) : Do(<<"xpair", u, x, y>>)) /\ UNCHANGED live
             [] nx[1] = "pcopy" -> Do(<<"xpcopy">>) /\ UNCHANGED live
Next == Pick \/ Step
=============================================================================
