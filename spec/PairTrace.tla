----------------------------- MODULE PairTrace ------------------------------
(* Pairings in the generic-group view.  Elements of G1, G2 and GT are logged  *)
(* as classes of the library's own equality; the specification keeps, for     *)
(* every register, the linear form over the generators that were drawn        *)
(* (coefficients modulo the group order r) and for GT the bilinear form over  *)
(* pairs of generators.  A step is accepted only if equal forms and equal     *)
(* classes coincide throughout.  Everything else (fields, Zr) is judged by    *)
(* AlgTrace, of which this is an extension.                                   *)
EXTENDS AlgTrace

VARIABLES prs,     \* pairing name |-> [sym, type]
          shad,    \* register |-> [f: field name, v: form]
          cls,     \* field name |-> (class number |-> form)
          spp      \* preprocessed first arguments: name |-> form
pvars == <<i, flds, regs, pps, memo, prs, shad, cls, spp>>

\* Forms: finite functions from keys to nonzero residues; the identity is <<>>.
Zero == <<>>
Coef(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Norm(f) == [k \in {x \in DOMAIN f : f[x] # <<>>} |-> f[k]]
FAdd(r, f, g) == TLCEval(Norm([k \in DOMAIN f \cup DOMAIN g |-> BMod(BAdd(Coef(f, k), Coef(g, k)), r)]))
\* n a natural number
FScale(r, f, n) == TLCEval(Norm([k \in DOMAIN f |-> BMod(BMul(BMod(n, r), f[k]), r)]))
FNeg(r, f) == TLCEval([k \in DOMAIN f |-> BSub(r, f[k])])
ZRes(r, z) == IF z[1] < 0 THEN BMod(BSub(r, BMod(z[2], r)), r) ELSE BMod(z[2], r)
Gen(k) == TLCEval([x \in {k} |-> <<1>>])
\* The product form of a pairing; symmetric pairings do not distinguish the order.
Key(sym, a, b) == IF sym /\ b < a THEN <<b, a>> ELSE <<a, b>>
RECURSIVE FTensor(_, _, _, _, _)
FTensor(r, sym, f, g, todo) ==
  IF todo = {} THEN Zero
  ELSE LET p == CHOOSE x \in todo : TRUE IN
       FAdd(r, TLCEval([k \in {Key(sym, p[1], p[2])} |-> BMod(BMul(f[p[1]], g[p[2]]), r)]), TLCEval(FTensor(r, sym, f, g, todo \ {p})))
FPair(r, sym, f, g) == TLCEval(Norm(FTensor(r, sym, f, g, (DOMAIN f) \X (DOMAIN g))))

ShOf(x) == shad[x].v
GroupOrder(F) == IF flds[F].t = "zn" THEN flds[F].n ELSE flds[F].r
POrd(x) == GroupOrder(shad[x].f)

\* form' is the form of every shadow register after the step; new: classes met so far, updated.
ClsOk(F, c, f, v) == \A k \in DOMAIN c : (k = v.k) = (c[k] = f)
FlagOk(F, f, v) == LET g == flds[F] quot == g.k = "G2" /\ g.t = "ec" /\ ~prs[g.p].sym IN
                   /\ (v.is0 = 1 => f = Zero) /\ (~quot => (f = Zero => v.is0 = 1))
                   /\ (g.k = "GT" => (v.is1 = 1) = (f = Zero))
\* Every class register logged in e has the class of its form (sh = the shadow after the step).
RECURSIVE Absorb(_, _, _)
Absorb(e, sh, todo) ==       \* the classes after taking in the registers of todo, or FALSE... as [ok, c]
  IF todo = {} THEN [ok |-> TRUE, c |-> cls]
  ELSE LET x == CHOOSE y \in todo : TRUE
           a == TLCEval(Absorb(e, sh, todo \ {x}))
           F == sh[x].f f == sh[x].v v == e.v[x]
           c == IF F \in DOMAIN a.c THEN a.c[F] ELSE <<>>
       IN IF a.ok /\ ClsOk(F, c, f, v) /\ FlagOk(F, f, v)
          THEN [ok |-> TRUE, c |-> (F :> ((v.k :> f) @@ c)) @@ a.c]
          ELSE [ok |-> FALSE, c |-> a.c]
Settle(e, sh) == LET S0 == {x \in DOMAIN e.v : x \in DOMAIN sh}
                     a == TLCEval(Absorb(e, sh, S0))
                 IN /\ a.ok /\ cls' = a.c /\ shad' = sh
                    /\ \A x \in DOMAIN e.v \ S0 : x \in DOMAIN regs => e.v[x] = regs[x].v     \* exponents are not touched
                    /\ Opt(e, "nmod", 0) = 0
Put(e, f) == [shad EXCEPT ![e.a[1]].v = f]

HashKey(e) == LET g == flds[shad[e.a[1]].f] IN <<"hsh", g.p, IF g.k = "G2" /\ prs[g.p].sym THEN "G1" ELSE g.k, e.b>>
PResult(e) ==
  LET d == e.a[1] r == POrd(d) s(k) == ShOf(e.a[k]) z(k) == regs[e.a[k]].v IN
  CASE e.op = "set" -> s(2)
    [] e.op \in {"set0", "set1"} -> Zero
    [] e.op \in {"add", "mul"} -> FAdd(r, s(2), s(3))
    [] e.op \in {"sub", "div"} -> FAdd(r, s(2), FNeg(r, s(3)))
    [] e.op \in {"neg", "inv"} -> FNeg(r, s(2))
    [] e.op \in {"dbl", "sq"} -> FScale(r, s(2), <<2>>)
    [] e.op \in {"mulmpz", "mulsi", "powmpz"} -> FScale(r, s(2), ZRes(r, e.n))
    [] e.op \in {"mulzn", "powzn"} -> FScale(r, s(2), z(3))
    [] e.op = "pow2mpz" -> FAdd(r, FScale(r, s(2), e.n1[2]), FScale(r, s(3), e.n2[2]))
    [] e.op = "pow3mpz" -> FAdd(r, FAdd(r, FScale(r, s(2), e.n1[2]), FScale(r, s(3), e.n2[2])), FScale(r, s(4), e.n3[2]))
    [] e.op = "rt" -> s(2)
    [] e.op = "pair" -> FPair(r, prs[e.p].sym, s(2), s(3))
    [] e.op = "pairppapply" -> FPair(r, prs[e.p].sym, spp[e.pp], s(2))
    [] e.op = "prodpair" -> LET H[k \in 0..e.n] == IF k = 0 THEN Zero ELSE FAdd(r, H[k - 1], FPair(r, prs[e.p].sym, s(1 + k), s(1 + e.n + k))) IN H[e.n]
    [] e.op = "random" -> Gen(i + 1)
    [] e.op = "hash" -> IF HashKey(e) \in DOMAIN memo THEN memo[HashKey(e)] ELSE Gen(i + 1)
POps == {"set", "set0", "set1", "add", "mul", "sub", "div", "neg", "inv", "dbl", "sq", "mulmpz", "mulsi", "powmpz", "mulzn", "powzn",
         "pow2mpz", "pow3mpz", "rt", "pair", "pairppapply", "prodpair", "random", "hash"}
GtKey(e, f) == IF flds[shad[e.a[1]].f].k = "GT" /\ e.op \in {"random", "hash"} /\ DOMAIN f = {i + 1} THEN TLCEval([k \in {<<i + 1, 0>>} |-> <<1>>]) ELSE f
OnShadow(e) == Has(e, "a") /\ Len(e.a) > 0 /\ e.a[1] \in DOMAIN shad
PStepOp(e) ==
  /\ e.op \in POps /\ OnShadow(e)
  /\ LET f == TLCEval(GtKey(e, PResult(e))) IN
     /\ Settle(e, Put(e, f))
     /\ memo' = IF e.op = "hash" THEN (HashKey(e) :> f) @@ memo ELSE memo
  /\ UNCHANGED <<flds, regs, pps, prs, spp>>
PStepQuery(e) ==
  /\ OnShadow(e)
  /\ \/ e.op = "cmp" /\ (e.r = 0) = (ShOf(e.a[1]) = ShOf(e.a[2]))
     \/ e.op = "coddh" /\ LET r == POrd(e.a[1]) s == prs[e.p].sym x == FPair(r, s, ShOf(e.a[1]), ShOf(e.a[4])) y == FPair(r, s, ShOf(e.a[2]), ShOf(e.a[3]))
                          IN (e.r = 1) = (x = y \/ x = FNeg(r, y))
     \/ e.op = "pairpp"
  /\ Settle(e, shad)
  /\ spp' = IF e.op = "pairpp" THEN (e.pp :> ShOf(e.a[1])) @@ spp ELSE spp
  /\ UNCHANGED <<flds, regs, pps, memo, prs>>
PStepDecl(e) ==
  \/ /\ e.op = "pairing" /\ e.r = 0 /\ prs' = (e.p :> [sym |-> e.sym = 1, type |-> e.type]) @@ prs
     /\ UNCHANGED <<flds, regs, pps, memo, shad, cls, spp>>
  \/ /\ e.op = "elem" /\ Has(e, "cm")
     /\ Settle(e, (e.a[1] :> [f |-> e.f, v |-> Zero]) @@ shad)
     /\ UNCHANGED <<flds, regs, pps, memo, prs, spp>>
  \/ /\ e.op = "clear" /\ e.a[1] \in DOMAIN shad
     /\ shad' = [x \in DOMAIN shad \ {e.a[1]} |-> shad[x]]
     /\ UNCHANGED <<flds, regs, pps, memo, prs, cls, spp>>
  \/ /\ e.op = "ppclear" /\ e.pp \in DOMAIN spp /\ spp' = [p \in DOMAIN spp \ {e.pp} |-> spp[p]]
     /\ UNCHANGED <<flds, regs, pps, memo, prs, shad, cls>>
  \/ /\ e.op = "dump" /\ DOMAIN e.v = DOMAIN regs \cup DOMAIN shad
     /\ \A x \in DOMAIN regs : e.v[x] = regs[x].v
     /\ Settle(e, shad) /\ UNCHANGED <<flds, regs, pps, memo, prs, spp>>
  \/ /\ e.op = "end" /\ flds' = <<>> /\ regs' = <<>> /\ pps' = <<>> /\ memo' = <<>> /\ prs' = <<>> /\ shad' = <<>> /\ cls' = <<>> /\ spp' = <<>>
  \/ /\ e.op = "pclear"        \* the pairing and all its elements are gone
     /\ shad' = [x \in {y \in DOMAIN shad : flds[shad[y].f].p # e.p} |-> shad[x]]
     /\ regs' = [x \in {y \in DOMAIN regs : flds[regs[y].f].p # e.p} |-> regs[x]]
     /\ cls' = [F \in {y \in DOMAIN cls : flds[y].p # e.p} |-> cls[F]]
     /\ UNCHANGED <<flds, pps, memo, prs, spp>>
  \/ /\ e.op = "probe" /\ Memo(<<"probe", e.key>>, <<e.ba, e.bb, e.bu>>)      \* a function of the parameters and the strings
     /\ UNCHANGED <<flds, regs, pps, prs, shad, cls, spp>>
  \/ /\ e.op = "option" /\ UNCHANGED <<flds, regs, pps, memo, prs, shad, cls, spp>>

\* Registers that are not classes: the ordinary register machine.
PStepAlg(e) ==
  /\ ~OnShadow(e) /\ e.op \notin {"pairing", "dump", "end", "pclear", "option", "probe"} /\ ~(e.op = "elem" /\ Has(e, "cm")) /\ ~(e.op = "ppclear" /\ e.pp \in DOMAIN spp)
  /\ StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e)
  /\ UNCHANGED <<prs, shad, cls, spp>>

PInit == Init /\ prs = <<>> /\ shad = <<>> /\ cls = <<>> /\ spp = <<>>
PNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i + 1] IN PStepOp(e) \/ PStepQuery(e) \/ PStepDecl(e) \/ PStepAlg(e)
=============================================================================
