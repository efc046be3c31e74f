------------------------------- MODULE PairGen ------------------------------
(* Behaviours of pairings.  Mode "scen": every combination of an evaluation   *)
(* path, how each argument was produced, and the selected algorithm.          *)
(* Mode "life": sequences of group operations, preprocessing, products,       *)
(* algorithm changes, re-creation of registers and of whole pairings, over    *)
(* several pairings at once (Ps).  Kinds lists the step kinds allowed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Ps, Args, Paths, Opts, Kinds, Depth, NoEmit
VARIABLES h, pp, nx
vars == <<h, pp, nx>>
Emit(tag, r) == NoEmit \/ PrintT(tag \o " " \o ToJson(r))
G1 == {"a", "b"}  G2 == {"x", "y"}  GT == {"u", "v"}
Init == h = <<>> /\ pp = [p \in Ps |-> {}] /\ nx = <<>>
Scen == /\ Mode = "scen" /\ h = <<>> /\ UNCHANGED <<pp, nx>>
        /\ \E p \in Paths, m \in Args, n \in Args, o \in Opts :
             h' = <<[path |-> p, a |-> m, b |-> n, opt |-> o]>> /\ Emit("PS", h'[1])
Pick == /\ Mode = "life" /\ nx = <<>> /\ Len(h) < Depth /\ UNCHANGED <<h, pp>>
        /\ \E p \in Ps, k \in Kinds :
             /\ (k \in {"ppapply", "ppclear"} => pp[p] # {}) /\ (k = "ppinit" => pp[p] # {"S", "T"})
             /\ nx' = <<p, k>>
Do(s) == h' = Append(h, <<nx[1]>> \o s) /\ nx' = <<>> /\ (Len(h) + 1 = Depth => Emit("PL", h'))
p0 == nx[1]
Step == /\ nx # <<>>
        /\ CASE nx[2] = "group" -> (\E R \in {G1, G2, GT} : \E c, x, y \in R : \E o \in {"add", "sub", "neg", "dbl", "set"} : Do(<<o, c, x, y>>)) /\ UNCHANGED pp
             [] nx[2] = "scale" -> (\E R \in {G1, G2, GT} : \E c, x \in R : \E o \in {"mulmpz", "mulzn", "powmpz"} : Do(<<o, c, x, x>>)) /\ UNCHANGED pp
             [] nx[2] = "make" -> (\E c \in G1 \cup G2 : \E o \in {"random", "hash", "set0", "remake", "rt"} : Do(<<o, c, c, c>>)) /\ UNCHANGED pp
             [] nx[2] = "pair" -> (\E u \in GT, x \in G1, y \in G2 : Do(<<"pair", u, x, y>>)) /\ UNCHANGED pp
             [] nx[2] = "prod" -> (\E n \in 1..4, u \in GT, x \in G1, y \in G2 : Do(<<"prod", u, x, y, n>>)) /\ UNCHANGED pp
             [] nx[2] = "option" -> (\E o \in Opts : Do(<<"option", o, "", "">>)) /\ UNCHANGED pp
             [] nx[2] = "coddh" -> (\E x \in G1, y \in G2 : Do(<<"coddh", x, y, "">>)) /\ UNCHANGED pp
             [] nx[2] = "cmp" -> (\E R \in {G1, G2, GT} : \E x, y \in R : Do(<<"cmp", x, y, "">>)) /\ UNCHANGED pp
             [] nx[2] = "probe" -> (\E n \in 1..3 : Do(<<"probe", n, "", "">>)) /\ UNCHANGED pp
             [] nx[2] = "reopen" -> Do(<<"reopen", "", "", "">>) /\ pp' = [pp EXCEPT ![p0] = {}]
             [] nx[2] = "ppinit" -> \E t \in {"S", "T"} \ pp[p0], x \in G1 : Do(<<"ppinit", t, x, "">>) /\ pp' = [pp EXCEPT ![p0] = @ \cup {t}]
             [] nx[2] = "ppapply" -> (\E t \in pp[p0], u \in GT, y \in G2 : Do(<<"ppapply", u, t, y>>)) /\ UNCHANGED pp
             [] nx[2] = "ppclear" -> \E t \in pp[p0] : Do(<<"ppclear", t, "", "">>) /\ pp' = [pp EXCEPT ![p0] = @ \ {t}]
Next == Scen \/ Pick \/ Step
=============================================================================
