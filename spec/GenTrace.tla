------------------------------ MODULE GenTrace ------------------------------
(* Generated parameters, CM searches and class polynomials, as logged.        *)
EXTENDS AlgTrace, Gen
VARIABLES cms              \* how many CM triples the search under way has reported
gvars == <<i, flds, regs, pps, memo, cms>>
TextOk(e, ty, ok(_)) == LET tab == TLCEval(Table(e.text)) IN
  /\ e.held = 0 /\ Accepts(tab) /\ tab[Ktype] = ty /\ e.text = Canon(tab) /\ ok(tab)
GenOk(e) == CASE e.type = "a" -> TextOk(e, Ta, LAMBDA tab : GenA(tab, BToInt(e.n[2]), e.m))
              [] e.type = "a1" -> TextOk(e, Ta1, LAMBDA tab : GenA1(tab, e.n[2]))
              [] e.type = "e" -> TextOk(e, Te, LAMBDA tab : GenE(tab, BToInt(e.n[2]), e.m))
              [] e.type = "f" -> TextOk(e, Tf, LAMBDA tab : GenF(tab, BToInt(e.n[2])))
              [] e.type = "i" -> TextOk(e, Ti, LAMBDA tab : GenI(tab, BToInt(e.n[2])))
GStep(e) ==
  /\ UNCHANGED <<flds, regs, pps, memo>>
  /\ CASE e.op = "gen" -> GenOk(e) /\ UNCHANGED cms
       [] e.op = "cm" -> CmOk(e) /\ cms' = cms + 1
       [] e.op = "gencm" -> TextOk(e, IF e.k = 6 THEN Td ELSE Tg, LAMBDA tab : GenCM(tab, e, e.k)) /\ UNCHANGED cms
       [] e.op = "cmsearch" -> /\ e.held = 0 /\ e.got = cms /\ cms' = 0
                               /\ e.r = (IF e.got > 0 /\ e.got = e.stopat THEN 40 + e.got ELSE 0)
                               /\ e.got >= e.least
       [] e.op = "hilbert" -> e.held = 0 /\ HilbertOk(e, e.many) /\ UNCHANGED cms
       [] e.op = "rng" -> UNCHANGED cms
       [] e.op = "end" -> cms' = 0
GInit == Init /\ cms = 0
GNext == i < Len(Trace) /\ i' = i + 1 /\ GStep(Trace[i + 1])
=============================================================================
