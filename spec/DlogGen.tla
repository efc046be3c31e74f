------------------------------ MODULE DlogGen -------------------------------
(* All bases and targets of a cyclic group of order n written down by their   *)
(* logarithms: base = gen^a, target = base^k, for every a and k.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Orders, Methods
VARIABLES s
Init == \E n \in Orders : \E a, k \in 0..(n - 1), m \in Methods : s = [n |-> n, a |-> a, k |-> k, m |-> m, done |-> FALSE]
Next == ~s.done /\ s' = [s EXCEPT !.done = TRUE] /\ PrintT("DG " \o ToJson(<<s.n, s.a, s.k, s.m>>))
=============================================================================
