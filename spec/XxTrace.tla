------------------------------- MODULE XxTrace ------------------------------
(* The C++ wrapper: its objects are the registers of PairTrace (groups) and   *)
(* AlgTrace (Zr), every member the operation of the same meaning.  New here:  *)
(* copy construction makes an independent register of the same value; bytes   *)
(* of another length are refused with an exception; two elements of the same  *)
(* group are paired when the pairing is symmetric and refused (leaving the    *)
(* result alone) when it is not; a text the library refuses makes no object.  *)
EXTENDS PairTrace
Old(x) == IF x \in DOMAIN shad THEN shad[x].v ELSE regs[x].v
XStep(e) ==
  \/ /\ e.op = "xcopy"
     /\ IF Has(e, "cm")
        THEN Settle(e, (e.a[1] :> [f |-> e.f, v |-> shad[e.a[2]].v]) @@ shad) /\ UNCHANGED regs
        ELSE /\ e.v[e.a[1]] = regs[e.a[2]].v /\ e.v[e.a[2]] = regs[e.a[2]].v
             /\ regs' = (e.a[1] :> [f |-> e.f, v |-> regs[e.a[2]].v]) @@ regs /\ UNCHANGED <<shad, cls>>
     /\ e.a[1] \notin DOMAIN shad \cup DOMAIN regs
     /\ UNCHANGED <<flds, pps, memo, prs, spp>>
  \/ /\ e.op = "xpcopy" /\ e.r = 0 /\ UNCHANGED <<flds, regs, pps, memo, prs, shad, cls, spp>>
  \/ /\ e.op = "xsize" /\ e.len = e.lib
     /\ (e.r = 1) = (e.given # e.len)
     /\ \E take \in (IF e.given < e.len THEN {FALSE} ELSE IF e.given = e.len THEN {TRUE} ELSE BOOLEAN) :
          LET d == e.a[1] s == e.a[2] IN
          IF d \in DOMAIN shad THEN Settle(e, IF take THEN [shad EXCEPT ![d].v = shad[s].v] ELSE shad) /\ UNCHANGED regs
          ELSE /\ e.v[d] = regs[IF take THEN s ELSE d].v /\ (s # d => e.v[s] = regs[s].v)
               /\ regs' = [regs EXCEPT ![d].v = e.v[d]] /\ UNCHANGED <<shad, cls>>
     /\ UNCHANGED <<flds, pps, memo, prs, spp>>
  \/ /\ e.op = "xpair"
     /\ IF prs[e.p].sym \/ flds[shad[e.a[2]].f].k # flds[shad[e.a[3]].f].k
        THEN e.r = 1 /\ Settle(e, Put(e, TLCEval(FPair(POrd(e.a[1]), prs[e.p].sym, ShOf(e.a[2]), ShOf(e.a[3])))))
        ELSE e.r = 2 /\ Settle(e, shad)
     /\ UNCHANGED <<flds, regs, pps, memo, prs, spp>>
XNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i + 1] IN
            IF e.op \in {"xcopy", "xpcopy", "xsize", "xpair"} THEN XStep(e) ELSE PStepOp(e) \/ PStepQuery(e) \/ PStepDecl(e) \/ PStepAlg(e)
=============================================================================
