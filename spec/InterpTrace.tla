----------------------------- MODULE InterpTrace ----------------------------
(* Recorded runs of the calculator: "pairing"/"field" lines give the groups   *)
(* of the sample pairings, "run" lines a program and what came of it.         *)
EXTENDS Interp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, gs
\* The groups of type t: the descriptor, its order, and (for curves) the pairing it belongs to
\* and whether its random elements lie in the subgroup of order r.
Grp(e) == LET d == e.d t == SubSeq(e.f, 1, 1) IN IF d.t = "ec" THEN d @@ [pt |-> t, sub |-> t = "a" \/ SubSeq(e.f, 3, 4) = "G1"] ELSE d
Verdict(e) == LET s == TLCEval(Run(e.text, e.mode, IF e.out = <<>> /\ e.rc # 0 THEN Lost ELSE e.out, gs)) IN
              /\ (s.stop = "open" => PrintT("OPEN " \o ToString(i + 1)))
              /\ Judge(s, e.out, e.rc)
Step(e) == \/ e.op = "pairing" /\ UNCHANGED gs
           \/ e.op = "field" /\ gs' = (e.f :> Grp(e)) @@ gs
           \/ e.op = "run" /\ Verdict(e) /\ UNCHANGED gs
           \/ e.op = "end" /\ UNCHANGED gs
Init == i = 0 /\ gs = <<>>
Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
View == i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ Len(Trace) > 0 /\ Trace[Len(Trace)].op = "end"
=============================================================================
