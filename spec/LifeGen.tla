------------------------------ MODULE LifeGen -------------------------------
(* Life cycles: objects are created on top of others, used, and cleared once  *)
(* nothing depends on them, in every order (or in random long orders).        *)
(* Deps maps an object to the objects it needs.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Deps, MaxLen, Final, NoEmit
VARIABLES live, h
vars == <<live, h>>
D(x) == {d[2] : d \in {e \in Deps : e[1] = x}}
Init == live = {} /\ h = <<>>
Emit == NoEmit \/ PrintT("LF " \o ToJson(h'))
Done == Len(h') = MaxLen
Act(op, x) == h' = Append(h, <<op, x>>)
Open(x) == x \notin live /\ D(x) \subseteq live /\ live' = live \cup {x} /\ Act("open", x)
Close(x) == x \in live /\ (\A y \in live : x \notin D(y)) /\ live' = live \ {x} /\ Act("close", x)
Use(x) == x \in live /\ Act("use", x) /\ UNCHANGED live
Next == Len(h) < MaxLen /\ (\E x \in Objs : Open(x) \/ Close(x) \/ Use(x)) /\ (Done => Emit)
=============================================================================
