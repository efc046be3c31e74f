----------------------------- MODULE ParamTrace -----------------------------
(* Reading, writing and refusing parameter text; the structures of a pairing  *)
(* made from a text are those its numbers prescribe.                          *)
EXTENDS AlgTrace, Params
VARIABLES ptab                \* pairing |-> table of its text
parvars == <<i, flds, regs, pps, memo, ptab>>

ParamOk(e) == LET tab == TLCEval(Table(TLCEval(Visible(e.text, e.lim)))) IN
              /\ e.inmod = 0 /\ e.held = 0
              /\ IF Accepts(tab) THEN e.r = 0 /\ e.out = Canon(tab) /\ e.r2 = 0 /\ e.same = 1 ELSE e.r = 1
M(q, z) == IF z[1] < 0 THEN BMod(BSub(q, BMod(z[2], q)), q) ELSE BMod(z[2], q)
\* field event e of pairing p agrees with the table
FieldsOk(e, tab) ==
  LET ty == tab[Ktype] d == e.d
      q == NumOf(tab, IF ty = Ta1 THEN Kp ELSE Kq)[2]
      r == NumOf(tab, IF ty \in {Ta1, Ti} THEN Kn ELSE Kr)[2]
      base == [t |-> "zn", n |-> q]
      ext == LET cs == TLCEval(TSeq(IF ty = Tg THEN 5 ELSE IntOf(tab, Kk).v \div 2, LAMBDA j : M(q, NumOf(tab, Kcoeff(j - 1))))) IN
             [t |-> "pm", b |-> base, n |-> Len(cs), red |-> TSeq(Len(cs), LAMBDA j : IF Len(cs) = 1 THEN <<>> ELSE BSubMod(<<>>, cs[j], q))]
  IN
  CASE e.k = "Zr" -> d.t = "zn" /\ d.n = r
    [] e.k = "Fq" -> IF ty = Ti THEN TRUE ELSE d = base
    [] e.k = "G1" -> e.ord = r /\ (IF ty = Ti THEN TRUE ELSE (d.b = base /\ d.r = r /\ d.a4 = (CASE ty \in {Ta, Ta1} -> <<1>> [] ty = Tf -> <<>> [] OTHER -> M(q, NumOf(tab, Ka)))
                                                /\ d.a6 = (IF ty \in {Ta, Ta1} THEN <<>> ELSE M(q, NumOf(tab, Kb)))))
    [] e.k = "G2" -> e.ord = r
    [] e.k = "GT" -> /\ e.ord = r /\ d.t = "gt" /\ d.r = r
                     /\ CASE ty \in {Ta, Ta1} -> d.b = [t |-> "quad", b |-> base, nqr |-> BSub(q, <<1>>)]
                          [] ty = Te -> d.b = base
                          [] ty \in {Td, Tg} -> d.b = [t |-> "quad", b |-> ext, nqr |-> TSeq(ext.n, LAMBDA j : IF j = 1 THEN M(q, NumOf(tab, Knqr)) ELSE <<>>)]
                          [] ty = Tf -> LET f2 == [t |-> "quad", b |-> base, nqr |-> M(q, NumOf(tab, Kbeta))] IN
                                        d.b = [t |-> "pm", b |-> f2, n |-> 6, red |-> TSeq(6, LAMBDA j : IF j = 1 THEN <<BSubMod(<<>>, M(q, NumOf(tab, Kalpha0)), q), BSubMod(<<>>, M(q, NumOf(tab, Kalpha1)), q)>> ELSE << <<>>, <<>> >>)]
                          [] ty = Ti -> d.b.b.b.m = IntOf(tab, Km).v /\ d.b.b.b.tt = IntOf(tab, Kt).v
PStep(e) ==
  \/ e.op = "param" /\ ParamOk(e) /\ UNCHANGED <<flds, regs, pps, memo, ptab>>
  \/ /\ e.op = "pairing" /\ Has(e, "text")
     /\ LET tab == TLCEval(Table(TLCEval(Visible(e.text, e.lim)))) IN
        IF Accepts(tab) THEN e.r = 0 /\ ptab' = (e.p :> tab) @@ ptab ELSE e.r = 1 /\ UNCHANGED ptab
     /\ UNCHANGED <<flds, regs, pps, memo>>
  \/ e.op = "field" /\ Has(e, "p") /\ (e.p \in DOMAIN ptab => FieldsOk(e, ptab[e.p])) /\ StepDecl(e) /\ UNCHANGED ptab
  \/ e.op = "held" /\ e.n = 0 /\ UNCHANGED <<flds, regs, pps, memo, ptab>>
  \/ e.op = "end" /\ flds' = <<>> /\ regs' = <<>> /\ pps' = <<>> /\ memo' = <<>> /\ ptab' = <<>>
  \/ e.op = "pclear" /\ ptab' = [x \in DOMAIN ptab \ {e.p} |-> ptab[x]] /\ regs' = [x \in {y \in DOMAIN regs : flds[regs[y].f].p # e.p} |-> regs[x]] /\ UNCHANGED <<flds, pps, memo>>
  \/ /\ e.op \notin {"param", "held", "end", "pclear"} /\ ~(e.op = "pairing" /\ Has(e, "text")) /\ ~(e.op = "field" /\ Has(e, "p"))
     /\ StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e)
     /\ UNCHANGED ptab
PInit == Init /\ ptab = <<>>
PNext == i < Len(Trace) /\ i' = i + 1 /\ PStep(Trace[i + 1])
=============================================================================
