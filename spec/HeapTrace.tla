------------------------------ MODULE HeapTrace -----------------------------
(* Ownership of memory.  State: the objects that exist (initialised and not   *)
(* yet cleared), and how many blocks obtained by each command are still held  *)
(* from the installed allocators.  Every command reports how many blocks it   *)
(* obtained and kept and how many blocks of earlier commands it gave back.    *)
(* No block is given back twice or through the wrong allocator, none comes    *)
(* from elsewhere, and when no object exists nothing is held.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, objs, held, base
vars == <<i, objs, held, base>>
RECURSIVE Lives(_, _, _), Give(_, _, _)
\* births and deaths in order; "BAD" when an object is born twice or dies without existing
Lives(s, k, o) == IF k > Len(s) THEN o
                  ELSE IF s[k][1] = "+" THEN (IF s[k][2] \in o THEN {"BAD"} ELSE Lives(s, k + 1, o \cup {s[k][2]}))
                  ELSE IF s[k][2] \notin o THEN {"BAD"} ELSE Lives(s, k + 1, o \ {s[k][2]})
\* held after giving back g[k] = <<command, number>>; commands of which nothing is left drop out
Ok(g, h) == \A k \in 1..Len(g) : g[k][1] \in DOMAIN h /\ g[k][2] <= h[g[k][1]]
Give(g, k, h) == IF k > Len(g) THEN h
                 ELSE LET c == g[k][1] n == TLCEval(h[c] - g[k][2]) IN
                      Give(g, k + 1, TLCEval(IF n = 0 THEN [x \in DOMAIN h \ {c} |-> h[x]] ELSE [h EXCEPT ![c] = n]))
Step(e) ==
  \/ /\ e.op = "mem"
     /\ e.bad = 0 /\ e.direct = 0
     /\ LET o == TLCEval(Lives(e.obj, 1, objs)) IN
        /\ "BAD" \notin o
        /\ Ok(e.gone, held) /\ e.c \notin DOMAIN held
        /\ LET h == TLCEval(Give(e.gone, 1, held)) IN
           held' = IF e.new = 0 THEN h ELSE (e.c :> e.new) @@ h
        /\ objs' = o
        /\ base' = IF e.cmd = "rng" THEN base \cup {e.c} ELSE base      \* the random source itself lives on
        /\ (o = {} => DOMAIN held' \subseteq base')
  \/ e.op = "end" /\ objs = {} /\ objs' = {} /\ held' = <<>> /\ base' = {}
Init == i = 0 /\ objs = {} /\ held = <<>> /\ base = {}
Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
View == i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ Len(Trace) > 0 /\ Trace[Len(Trace)].op = "end"
=============================================================================
