------------------------------- MODULE SerGen -------------------------------
(* Generator of serialisation behaviours: an element is brought to a value    *)
(* along a history, then written, read back, read from raw bytes or text of   *)
(* a chosen shape, or hashed into, with the destination left dirty in a       *)
(* chosen way and aliased or not.  Formatted output: every short sequence of  *)
(* directives against every class of buffer size.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Hists, Dirty, WOps, ROps, DOps, Bases, Sizes, Bytes, Muts, HLens, HBytes, Dirs, MaxDirs, NoEmit
VARIABLES ph, sc
vars == <<ph, sc>>
Emit(r) == NoEmit \/ PrintT("SE " \o ToJson(r))
Init == ph = "kind" /\ sc = <<>>
Sized(o) == IF o = "snprint" THEN Sizes ELSE IF o \in {"outstr", "rtstr"} THEN Bases ELSE {""}
Write == \E h \in Hists, o \in WOps : \E x \in Sized(o) :
           sc' = [kind |-> "write", h |-> h, op |-> o, x |-> x, d |-> ""]
Round == \E h \in Hists, o \in ROps, d \in Dirty \cup {"self"} : \E x \in Sized(o) :
           sc' = [kind |-> "round", h |-> h, op |-> o, x |-> x, d |-> d]
Decode == \E o \in DOps, b \in Bytes, d \in Dirty : sc' = [kind |-> "decode", h |-> b, op |-> o, x |-> "", d |-> d]
ParseT == \E m \in Muts, b \in Bases, d \in Dirty : sc' = [kind |-> "parse", h |-> m, op |-> "setstr", x |-> b, d |-> d]
Hash == \E n \in HLens, b \in HBytes, d \in Dirty : sc' = [kind |-> "hash", h |-> b, op |-> "hash", x |-> n, d |-> d]
Simple == ph = "kind" /\ (Write \/ Round \/ Decode \/ ParseT \/ Hash) /\ ph' = "done" /\ Emit(sc')
Fmt == /\ ph = "kind" /\ MaxDirs > 0 /\ \E z \in Sizes : sc' = [kind |-> "fmt", z |-> z, ds |-> <<>>]
       /\ ph' = "fmt"
FmtMore == /\ ph = "fmt" /\ Len(sc.ds) < MaxDirs /\ UNCHANGED ph
           /\ \E d \in Dirs : sc' = [sc EXCEPT !.ds = Append(@, d)] /\ Emit(sc')
Next == Simple \/ Fmt \/ FmtMore
=============================================================================
