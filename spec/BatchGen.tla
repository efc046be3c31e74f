------------------------------ MODULE BatchGen ------------------------------
(* Batch sums and doubles of points: every vector of up to N slots, each slot *)
(* one of the cases the group law distinguishes, each destination fresh or    *)
(* one of the slot's own operands.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, AddCases, DblCases, Aliases, NoEmit
VARIABLES k, kind, len, slots
vars == <<k, kind, len, slots>>
Emit(r) == NoEmit \/ PrintT("BT " \o ToJson(r))
Init == k = 0 /\ kind \in {"madd", "mdbl"} /\ len \in 1..N /\ slots = <<>>
Next == /\ k < len /\ k' = k + 1 /\ UNCHANGED <<kind, len>>
        /\ \E c \in (IF kind = "madd" THEN AddCases ELSE DblCases), a \in Aliases :
             /\ (kind = "mdbl" => a # "b")
             /\ slots' = Append(slots, <<c, a>>)
             /\ (k + 1 = len => Emit([kind |-> kind, slots |-> slots']))
=============================================================================
