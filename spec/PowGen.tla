------------------------------- MODULE PowGen -------------------------------
(* Behaviours of precomputed power tables: tables are made from registers,    *)
(* used, replaced and released while the registers they were made from are    *)
(* overwritten, cleared and made again.                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Tabs, Regs, Depth, NoEmit
VARIABLES n, live, hist
vars == <<n, live, hist>>
Emit(h) == NoEmit \/ PrintT("PW " \o ToJson(h))
Init == n = 0 /\ live = {} /\ hist = <<>>
Do(a) == /\ hist' = Append(hist, a) /\ n' = n + 1
         /\ (n + 1 = Depth => (a[1] \in {"pppow", "pppowzn"} => Emit(hist')))
MkTab(t, r) == n < Depth - 1 /\ t \notin live /\ live' = live \cup {t} /\ Do(<<"ppinit", t, r>>)
Drop(t) == n < Depth - 1 /\ t \in live /\ live' = live \ {t} /\ Do(<<"ppclear", t, "">>)
Use(t, d, o) == t \in live /\ UNCHANGED live /\ Do(<<o, t, d>>)
Touch(r, o) == n < Depth - 1 /\ live # {} /\ UNCHANGED live /\ Do(<<o, "", r>>)
Next == /\ n < Depth
        /\ \/ \E t \in Tabs, r \in Regs : MkTab(t, r)
           \/ \E t \in Tabs : Drop(t)
           \/ \E t \in Tabs, d \in Regs, o \in {"pppow", "pppowzn"} : Use(t, d, o)
           \/ \E r \in Regs, o \in {"gen", "set0", "set1", "remake"} : Touch(r, o)
=============================================================================
