------------------------------ MODULE TateTrace -----------------------------
(* The register machine with exact pairing values: every pairing the library  *)
(* computes must be the reduced Tate pairing of the points in the registers.  *)
EXTENDS AlgTrace, Tate

VARIABLES prs, spp     \* pairing |-> type; preprocessed first arguments
tvars == <<i, flds, regs, pps, memo, prs, spp>>

G(p, k) == flds[p \o "." \o k]
\* An auxiliary point for embedding degree one: a register outside the torsion subgroup.
Aux(p) == LET C == G(p, "G1") X == {x \in DOMAIN regs : regs[x].f = p \o ".G1" /\ Val(x) # <<>> /\ EScale(C, C.r, Val(x)) # <<>>} IN Val(CHOOSE x \in X : TRUE)
TV(p, P, Q) == LET t == prs[p] C == G(p, "G1") K == G(p, "GT").b
               IN TateValue(t, C, K, C.r, P, Q, IF t = "e" /\ P # <<>> /\ Q # <<>> THEN TLCEval(Aux(p)) ELSE <<>>)
InDomain(p, P, Q) == LET C == G(p, "G1") IN
                     /\ EOn(C, P) /\ EScale(C, C.r, P) = <<>>
                     /\ EOn(G(p, "G2"), Q)
                     /\ (prs[p] \notin {"e"} /\ Q # <<>> => OnImage(C, G(p, "GT").b, TLCEval(Image(prs[p], G(p, "GT").b, Q))))
RECURSIVE ProdTV(_, _, _, _)
ProdTV(p, e, n, k) == IF k > n THEN ROne(G(p, "GT").b)
                      ELSE TLCEval(RMul(G(p, "GT").b, TLCEval(TV(p, A(e, 1 + k), A(e, 1 + n + k))), TLCEval(ProdTV(p, e, n, k + 1))))
Expect(e) == CASE e.op = "pair" -> IF InDomain(e.p, A(e, 2), A(e, 3)) THEN TV(e.p, A(e, 2), A(e, 3)) ELSE Assert(FALSE, "outside the domain")
               [] e.op = "pairppapply" -> TV(e.p, spp[e.pp], A(e, 2))
               [] e.op = "prodpair" -> ProdTV(e.p, e, e.n, 1)
TStep(e) ==
  \/ /\ e.op \in {"pair", "pairppapply", "prodpair"}
     /\ LET d == e.a[1] c == New(e, d) IN
        /\ Frame(e, {d}) /\ Flags(e, S(d))
        /\ c = Expect(e)
        /\ regs' = [regs EXCEPT ![d].v = c]
     /\ UNCHANGED <<flds, pps, memo, prs, spp>>
  \/ e.op = "pairing" /\ e.r = 0 /\ prs' = (e.p :> e.type) @@ prs /\ UNCHANGED <<flds, regs, pps, memo, spp>>
  \/ e.op = "pairpp" /\ Frame(e, {}) /\ spp' = (e.pp :> A(e, 1)) @@ spp /\ UNCHANGED <<flds, regs, pps, memo, prs>>
  \/ e.op = "ppclear" /\ e.pp \in DOMAIN spp /\ spp' = [x \in DOMAIN spp \ {e.pp} |-> spp[x]] /\ UNCHANGED <<flds, regs, pps, memo, prs>>
  \/ e.op = "end" /\ flds' = <<>> /\ regs' = <<>> /\ pps' = <<>> /\ memo' = <<>> /\ prs' = <<>> /\ spp' = <<>>
  \/ e.op = "pclear" /\ UNCHANGED <<flds, pps, memo, prs, spp>> /\ regs' = [x \in {y \in DOMAIN regs : flds[regs[y].f].p # e.p} |-> regs[x]]
  \/ /\ e.op \notin {"pair", "pairppapply", "prodpair", "pairing", "pairpp", "end", "pclear"} /\ ~(e.op = "ppclear" /\ e.pp \in DOMAIN spp)
     /\ StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e)
     /\ UNCHANGED <<prs, spp>>
TInit == Init /\ prs = <<>> /\ spp = <<>>
TNext == i < Len(Trace) /\ i' = i + 1 /\ TStep(Trace[i + 1])
=============================================================================
