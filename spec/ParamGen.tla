------------------------------ MODULE ParamGen ------------------------------
(* Shapes of parameter texts: a well-formed text changed by up to MaxMut      *)
(* alterations, each applied to a chosen entry (numbered, wrapped around the  *)
(* entries of the type), read with a chosen limit through a chosen function.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS PerKey, Whole, Keys, Limits, MaxMut, NoEmit
VARIABLES ms, ph
vars == <<ms, ph>>
Emit(r) == NoEmit \/ PrintT("PM " \o ToJson(r))
Init == ms = <<>> /\ ph = "mut"
Add == /\ ph = "mut" /\ Len(ms) < MaxMut /\ UNCHANGED ph
       /\ \/ \E m \in PerKey, k \in Keys : ms' = Append(ms, <<m, k>>)
          \/ \E m \in Whole : ms' = Append(ms, <<m, 0>>)
Read == /\ ph = "mut" /\ ph' = "done" /\ UNCHANGED ms /\ \A l \in Limits : Emit([ms |-> ms, lim |-> l])
Next == Add \/ Read
=============================================================================
