------------------------------- MODULE AlgGen -------------------------------
(* Generator of register-machine behaviours, shape level.  An operation is    *)
(* applied to operands that were brought to their value along a chosen        *)
(* history (Hists: how it was made, e.g. "zero by self-subtraction"), with a  *)
(* destination left dirty in a chosen way, under every aliasing of            *)
(* destination and operands.  TLC enumerates every combination; the           *)
(* conformance runner instantiates each with concrete elements of each        *)
(* implementation and AlgTrace judges the recorded run.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Hists, HistsB, Dirty, Un, Bin, Sca, Scalars, NoEmit
VARIABLES ph, sc
vars == <<ph, sc>>
BinAlias == {"cab", "aab", "bab", "caa", "aaa"}
UnAlias == {"ca", "aa"}
Init == ph = "op" /\ sc = [op |-> "", al |-> "", ha |-> "", hb |-> "", hc |-> "", s |-> ""]
Emit(r) == NoEmit \/ PrintT("SC " \o ToJson(r))
PickOp ==
  /\ ph = "op"
  /\ \/ \E o \in Bin, al \in BinAlias : sc' = [sc EXCEPT !.op = o, !.al = al] /\ ph' = "a"
     \/ \E o \in Un, al \in UnAlias : sc' = [sc EXCEPT !.op = o, !.al = al] /\ ph' = "a"
     \/ \E o \in Sca, al \in UnAlias, s \in Scalars : sc' = [sc EXCEPT !.op = o, !.al = al, !.s = s] /\ ph' = "a"
MakeA == ph = "a" /\ \E h \in Hists : sc' = [sc EXCEPT !.ha = h] /\ ph' = IF sc.al \in {"cab", "aab", "bab"} THEN "b" ELSE "c"
MakeB == ph = "b" /\ \E h \in HistsB : sc' = [sc EXCEPT !.hb = h] /\ ph' = "c"
\* The destination's previous contents matter only when it is not also an operand.
MakeC == /\ ph = "c" /\ ph' = "done"
         /\ \E h \in (IF sc.al \in {"cab", "caa", "ca"} THEN Dirty ELSE {""}) :
              sc' = [sc EXCEPT !.hc = h] /\ Emit(sc')
Next == PickOp \/ MakeA \/ MakeB \/ MakeC
=============================================================================
