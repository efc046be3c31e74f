------------------------------ MODULE RandGen -------------------------------
(* Lives of a program's randomness: a tape of requests, of which beginnings   *)
(* are played back again and again under one source after another, so that    *)
(* equal sources meet equal requests, sources interrupt each other and a      *)
(* source is re-installed while another is in force.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Reqs, Sources, TapeLen, Segs
VARIABLES tape, segs, fin
vars == <<tape, segs, fin>>
Init == tape = <<>> /\ segs = <<>> /\ fin = FALSE
Next == /\ ~fin
        /\ IF Len(tape) < TapeLen THEN \E r \in Reqs : tape' = Append(tape, r) /\ UNCHANGED <<segs, fin>>
           ELSE IF Len(segs) < Segs THEN \E s \in Sources, n \in {1, TapeLen \div 2, TapeLen} : segs' = Append(segs, <<s, n>>) /\ UNCHANGED <<tape, fin>>
           ELSE fin' = TRUE /\ PrintT("RG " \o ToJson([tape |-> tape, segs |-> segs])) /\ UNCHANGED <<tape, segs>>
=============================================================================
