------------------------------- MODULE MzGen -------------------------------
(* Lives of multinomial registers.  The state keeps, per register, only how   *)
(* its list is written down (list or integer, a bound on its size and depth), *)
(* so that lists of any nesting are built through the real operations while   *)
(* staying small.                                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Regs, Depth, Kinds, Leaves, Targets, MaxW, MaxD, NoEmit
VARIABLES h, sh, kind          \* sh[r] = [l: is a list, w: at most that many leaves, d: depth]
vars == <<h, sh, kind>>
Int0 == [l |-> FALSE, w |-> 1, d |-> 0]
Init == h = <<>> /\ sh = [r \in Regs |-> Int0] /\ kind = ""
Max(a, b) == IF a > b THEN a ELSE b
Small(x) == x.w <= MaxW /\ x.d <= MaxD
Do(step, c, x) == Small(x) /\ h' = Append(h, step) /\ sh' = [sh EXCEPT ![c] = x] /\ kind' = ""
Look(step) == h' = Append(h, step) /\ UNCHANGED sh /\ kind' = ""
Pick == kind = "" /\ Len(h) < Depth /\ kind' \in Kinds /\ UNCHANGED <<h, sh>>
Step ==
  \/ kind = "leaf" /\ \E c \in Regs, k \in Leaves : Do(<<"leaf", c, "", "", k>>, c, Int0)
  \/ kind = "newlist" /\ \E c, a \in Regs : Do(<<"mznewlist", c, a, "", "">>, c, [l |-> TRUE, w |-> sh[a].w, d |-> sh[a].d + 1])
  \/ kind = "append" /\ \E c, a \in Regs : sh[c].l /\ Do(<<"mzappend", c, a, "", "">>, c, [l |-> TRUE, w |-> sh[c].w + sh[a].w, d |-> Max(sh[c].d, sh[a].d + 1)])
  \/ kind = "bin" /\ \E o \in {"add", "sub"}, c, a, b \in Regs : Do(<<o, c, a, b, "">>, c, [l |-> sh[a].l \/ sh[b].l, w |-> sh[a].w + sh[b].w, d |-> Max(sh[a].d, sh[b].d)])
  \/ kind = "mul" /\ \E c, a, b \in Regs : Do(<<"mul", c, a, b, "">>, c, [l |-> sh[a].l \/ sh[b].l, w |-> sh[a].w * sh[b].w, d |-> Max(sh[a].d, sh[b].d)])
  \/ kind = "div" /\ \E c, a, b \in Regs : Do(<<"div", c, a, b, "">>, c, [l |-> sh[a].l, w |-> sh[a].w, d |-> sh[a].d])
  \/ kind = "un" /\ \E o \in {"neg", "dbl", "set"}, c, a \in Regs : Do(<<o, c, a, "", "">>, c, sh[a])
  \/ kind = "sq" /\ \E o \in {"sq", "pow2"}, c, a \in Regs : Do(<<o, c, a, "", "">>, c, [sh[a] EXCEPT !.w = @ * @])
  \/ kind = "pow" /\ \E k \in {"0", "1", "3"}, c, a \in Regs : Do(<<"pow", c, a, "", k>>, c, [sh[a] EXCEPT !.w = @ * @ * @])
  \/ kind = "sca" /\ \E o \in {"mulmpz", "mulsi", "addui"}, k \in Leaves, c, a \in Regs : Do(<<o, c, a, "", k>>, c, sh[a])
  \/ kind = "item" /\ \E c, a \in Regs, k \in {"first", "last"} : sh[a].l /\ Do(<<"item", c, a, "", k>>, c, [l |-> TRUE, w |-> sh[a].w, d |-> sh[a].d])
  \/ kind = "const" /\ \E o \in {"set0", "set1"}, c \in Regs : Do(<<o, c, "", "", "">>, c, Int0)
  \/ kind = "cmp" /\ \E a, b \in Regs : Look(<<"cmp", a, b, "", "">>)
  \/ kind = "look" /\ \E o \in {"sign", "outstr", "tobytes"}, a \in Regs : Look(<<o, a, "", "", "">>)
  \/ kind = "assign" /\ \E a \in Regs, t \in Targets : Look(<<"assign", t, a, "", "">>)
  \/ kind = "text" /\ \E c \in Regs, k \in Leaves : Do(<<"settext", c, "", "", k>>, c, Int0)
Finish == Len(h) = Depth /\ kind = "" /\ kind' = "done" /\ UNCHANGED <<h, sh>> /\ (NoEmit \/ PrintT("MZ " \o ToJson(h)))
Next == Pick \/ Step \/ (kind # "" /\ kind # "done" /\ ~ENABLED Step /\ kind' = "" /\ UNCHANGED <<h, sh>>) \/ Finish
=============================================================================
