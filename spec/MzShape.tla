------------------------------ MODULE MzShape ------------------------------
(* Every pair of ways of writing down small multinomials, under every         *)
(* operation and aliasing.  A shape is "0", "v" (a nonzero integer) or a list *)
(* of shapes, at most Width long and Deep deep.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Width, Deep, Ops
VARIABLES st
Lists(S) == UNION {[1..n -> S] : n \in 1..Width}
RECURSIVE Shapes(_)
Shapes(d) == IF d = 0 THEN {<<"0">>, <<"v">>} ELSE Shapes(0) \cup {<<"l", f>> : f \in Lists(Shapes(d - 1))}
Aliases == {"cab", "aab", "bab"}
Init == st = <<>>
Next == st = <<>> /\ \E a, b \in Shapes(Deep), o \in Ops, al \in Aliases :
          st' = <<a, b, o, al>> /\ PrintT("MS " \o ToJson([a |-> a, b |-> b, op |-> o, al |-> al]))
=============================================================================
