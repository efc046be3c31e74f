------------------------------ MODULE AlgTrace ------------------------------
(* The register machine libpbc implements, checked against a recorded run.    *)
(* State: the declared structures (flds), the value of every live element     *)
(* (regs), the base of every precomputed power table (pps).  One log line is  *)
(* one step; a line is accepted only if the library's answer is one the       *)
(* mathematics allows and no other logged element changed.                    *)
EXTENDS Ser, Build, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, flds, regs, pps, memo     \* memo: answers that must be repeated for equal arguments
vars == <<i, flds, regs, pps, memo>>

Has(e, k) == k \in DOMAIN e
Opt(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d

S(r) == flds[regs[r].f]                 \* structure of register r
Val(r) == regs[r].v                     \* its value before the step
New(e, r) == e.v[r]                     \* its logged value after the step

\* Every logged register other than those in D kept its value; scalars passed in were not modified.
Frame(e, D) == /\ \A r \in DOMAIN e.v : r \in D \/ New(e, r) = Val(r)
               /\ Opt(e, "nmod", 0) = 0 /\ Opt(e, "inmod", 0) = 0
\* The library's own predicates about the destination agree with its value.
Flags(e, s) == LET v == New(e, e.a[1]) IN
               /\ (Has(e, "is0") => (e.is0 = 1) = (v = Id0(s)))
               /\ (Has(e, "is1") => (e.is1 = 1) = (v = Id1(s)))
               /\ (Has(e, "neq") => e.neq = 0)
Nat0(z) == z[1] >= 0

Invertible(s, v) == CASE s.t = "zn" -> BGcd(v, s.n) = <<1>>
                      [] IsGroup(s) -> TRUE
                      [] OTHER -> v # RZero(s)

A(e, k) == Val(e.a[k])
\* What the result c of a one-destination operation must satisfy.
Result(e, s, c) ==
  CASE e.op = "set" -> c = A(e, 2)
    [] e.op = "set0" -> c = Id0(s)
    [] e.op = "set1" -> c = Id1(s)
    [] e.op \in {"setsi", "setmpz"} -> SIsFromZ(s, c, e.n)
    [] e.op = "add" -> SIsAdd(s, c, A(e, 2), A(e, 3))
    [] e.op = "sub" -> SIsSub(s, c, A(e, 2), A(e, 3))
    [] e.op = "mul" -> SIsMul(s, c, A(e, 2), A(e, 3))
    [] e.op = "div" -> Invertible(s, A(e, 3)) /\ SIsDiv(s, c, A(e, 2), A(e, 3))
    [] e.op = "neg" -> SIsNeg(s, c, A(e, 2))
    [] e.op = "inv" -> Invertible(s, A(e, 2)) /\ SIsInv(s, c, A(e, 2))
    [] e.op = "dbl" -> SIsAdd(s, c, A(e, 2), A(e, 2))
    [] e.op = "halve" -> SIsHalf(s, c, A(e, 2))
    [] e.op = "sq" -> SIsMul(s, c, A(e, 2), A(e, 2))
    [] e.op = "cube" -> c = RMul(s, A(e, 2), RMul(s, A(e, 2), A(e, 2)))
    [] e.op \in {"mulmpz", "mulsi"} -> SIsScale(s, c, A(e, 2), e.n)
    [] e.op = "addui" -> c = RAdd(s, A(e, 2), RFromZ(s, e.n))
    [] e.op = "mulzn" -> SIsScale(s, c, A(e, 2), <<1, A(e, 3)>>)
    [] e.op = "powmpz" -> Nat0(e.n) /\ SIsPow(s, c, A(e, 2), e.n)
    [] e.op = "powzn" -> SIsPow(s, c, A(e, 2), <<1, A(e, 3)>>)
    [] e.op = "pow2mpz" -> SIsMultiPow(s, c, << <<A(e, 2), e.n1[2]>>, <<A(e, 3), e.n2[2]>> >>)
    [] e.op = "pow3mpz" -> SIsMultiPow(s, c, << <<A(e, 2), e.n1[2]>>, <<A(e, 3), e.n2[2]>>, <<A(e, 4), e.n3[2]>> >>)
    [] e.op = "pow2zn" -> SIsMultiPow(s, c, << <<A(e, 2), A(e, 3)>>, <<A(e, 4), A(e, 5)>> >>)
    [] e.op = "pow3zn" -> SIsMultiPow(s, c, << <<A(e, 2), A(e, 3)>>, <<A(e, 4), A(e, 5)>>, <<A(e, 6), A(e, 7)>> >>)
    [] e.op = "pppow" -> SIsPow(s, c, pps[e.pp].v, e.n)
    [] e.op = "pppowzn" -> SIsPow(s, c, pps[e.pp].v, <<1, A(e, 2)>>)
    [] e.op = "sqrt" -> IF RIsSquare(s, A(e, 2)) THEN e.r = 1 /\ RIn(s, c) /\ RMul(s, c, c) = A(e, 2)
                        ELSE e.r = 0 /\ (e.a[1] # e.a[2] => c = A(e, 1))
    [] e.op = "random" -> SIn(s, c) /\ (s.k \in {"G1", "twist", "ecj", "ecb", "ecmap"} => EIsMul(s, s.r, c, <<>>)) /\ (s.t = "gt" => RPow(s.b, c, s.r) = ROne(s.b))
    [] e.op = "setcoeff" -> c = PStrip(s.b, TSeq(IF e.deg + 1 > Len(A(e, 1)) THEN e.deg + 1 ELSE Len(A(e, 1)),
                                LAMBDA k : IF k = e.deg + 1 THEN A(e, 2) ELSE PAt(s.b, A(e, 1), k)))
    [] e.op \in {"setcoeff0", "setcoeff1"} -> c = PStrip(s.b, TSeq(IF e.deg + 1 > Len(A(e, 1)) THEN e.deg + 1 ELSE Len(A(e, 1)),
                                LAMBDA k : IF k = e.deg + 1 THEN (IF e.op = "setcoeff0" THEN RZero(s.b) ELSE ROne(s.b)) ELSE PAt(s.b, A(e, 1), k)))
    [] e.op = "setx" -> c = <<RZero(s.b), ROne(s.b)>>
    [] e.op = "constmul" -> IF s.t = "poly" THEN c = PStrip(s.b, TSeq(Len(A(e, 3)), LAMBDA k : RMul(s.b, A(e, 2), A(e, 3)[k])))
                            ELSE c = TSeq(Len(A(e, 3)), LAMBDA k : RMul(s.b, A(e, 2), A(e, 3)[k]))
    [] e.op = "rndmonic" -> RIn(s, c) /\ Len(c) = e.deg + 1 /\ c[Len(c)] = ROne(s.b)
    [] e.op = "embed" -> c = (CASE s.t = "poly" -> PStrip(s.b, <<A(e, 2)>>)
                                [] s.t = "quad" -> <<A(e, 2), RZero(s.b)>>
                                [] OTHER -> TSeq(s.n, LAMBDA k : IF k = 1 THEN A(e, 2) ELSE RZero(s.b)))
    [] e.op \in {"dlogbf", "dlogrho"} -> SIn(s, c) /\ LET g == S(e.a[2]) IN SIsPow(g, A(e, 3), A(e, 2), <<IF c = <<>> THEN 0 ELSE 1, c>>)
    [] e.op = "setitem" -> c = [A(e, 1) EXCEPT ![e.i + 1] = A(e, 2)]
    [] e.op = "ecset" -> c = <<RFromZ(s.b, ZOfInt(e.x)), RFromZ(s.b, ZOfInt(e.y))>>
    [] OTHER -> FALSE

OneDest == {"set", "set0", "set1", "setsi", "setmpz", "add", "sub", "mul", "div", "neg", "inv", "dbl", "halve", "sq", "cube",
            "mulmpz", "mulsi", "addui", "mulzn", "powmpz", "powzn", "pow2mpz", "pow3mpz", "pow2zn", "pow3zn", "pppow", "pppowzn",
            "sqrt", "random", "setcoeff", "setcoeff0", "setcoeff1", "setx", "constmul", "rndmonic", "embed", "setitem", "ecset", "dlogbf", "dlogrho"}

StepOp(e) ==
  /\ e.op \in OneDest
  /\ LET d == e.a[1] s == S(d) c == New(e, d) IN
     /\ Frame(e, {d})
     /\ Flags(e, s)
     /\ Result(e, s, c)
     /\ regs' = [regs EXCEPT ![d].v = c]
  /\ UNCHANGED <<flds, pps, memo>>

Quiet(e) == Frame(e, {}) /\ UNCHANGED <<flds, regs, pps, memo>>

Memo(key, val) == (key \in DOMAIN memo => memo[key] = val) /\ memo' = (key :> val) @@ memo
\* Doubles in a cyclic curve group: everything when the order is odd, else found by search (tiny prime fields).
EIsDouble(C, P) == \/ P = <<>> \/ BBit(C.r, 0) = 1
                   \/ \E x, y \in 0..(BToInt(C.b.n) - 1) : LET Q == <<BFromInt(x), BFromInt(y)>> IN EOn(C, Q) /\ EIsSum(C, Q, Q, P)
Monic(s, v) == Len(v) >= 2 /\ v[Len(v)] = ROne(s.b)
StepQuery(e) ==
  \/ e.op = "cmp" /\ (e.r = 0) = (A(e, 1) = A(e, 2)) /\ Quiet(e)
  \/ e.op = "sign" /\ (e.r = 0) = (A(e, 1) = Id0(S(e.a[1]))) /\ e.rn = -e.r
     /\ Frame(e, {}) /\ Memo(<<"sign", regs[e.a[1]].f, A(e, 1)>>, e.r) /\ UNCHANGED <<flds, regs, pps>>
  \/ e.op = "findroot" /\ Monic(S(e.a[2]), A(e, 2)) /\ Frame(e, {e.a[1]})
     /\ LET s == S(e.a[1]) c == New(e, e.a[1]) IN
        /\ RIn(s, c)
        /\ IF PHasRoot(s, A(e, 2)) THEN e.r = 0 /\ PEval(s, A(e, 2), c) = RZero(s) ELSE e.r # 0
        /\ regs' = [regs EXCEPT ![e.a[1]].v = c]
     /\ UNCHANGED <<flds, pps, memo>>
  \/ e.op = "isirred" /\ Monic(S(e.a[1]), A(e, 1)) /\ (e.r # 0) = PIrred(S(e.a[1]).b, A(e, 1)) /\ Quiet(e)
  \/ e.op = "issqr" /\ (e.r = 1) = (IF S(e.a[1]).t = "ec" THEN EIsDouble(S(e.a[1]), A(e, 1)) ELSE RIsSquare(S(e.a[1]), A(e, 1))) /\ Quiet(e)
  \/ e.op = "skip" /\ ~Invertible(S(e.a[2]), A(e, 2)) /\ Quiet(e)
  \/ e.op = "skip0" /\ A(e, 1) = Id0(S(e.a[1])) /\ Quiet(e)
  \/ e.op = "dump" /\ DOMAIN e.v = DOMAIN regs /\ Quiet(e)
  \/ e.op = "tosi" /\ e.n[1] >= 0 /\ e.n[2] = A(e, 1) /\ Quiet(e)
  \/ e.op = "end" /\ flds' = <<>> /\ regs' = <<>> /\ pps' = <<>> /\ memo' = <<>>
  \/ /\ e.op = "fmt"
     /\ LET w == TLCEval(FmtOut(e.f, 1, TSeq(Len(e.args), LAMBDA j : LET a == e.args[j] IN IF a.k = "e" THEN [b |-> TLCEval(Text(S(a.r), Val(a.r), 10))] ELSE a), <<>>)) n == IF e.size = 0 THEN 0 ELSE e.size - 1 IN
        /\ e.r = Len(w) /\ e.over = 0 /\ e.term = 1
        /\ e.b = IF e.size < 0 \/ n >= Len(w) THEN w ELSE SubSeq(w, 1, n)
     /\ Quiet(e)
  \/ e.op = "rng" /\ UNCHANGED <<flds, regs, pps, memo>>
  \/ e.op = "option" /\ UNCHANGED <<flds, regs, pps, memo>>

StepBuild(e) ==
  \/ e.op = "tracen" /\ e.tr = TraceN(e.q, e.t, e.n) /\ e.o = OrderN(e.q, e.t, e.n) /\ e.nmod = 0 /\ UNCHANGED <<flds, regs, pps, memo>>
  \/ e.op = "tdiv" /\ TrialOk(e) /\ UNCHANGED <<flds, regs, pps, memo>>
  \/ e.op = "fclear" /\ flds' = [x \in DOMAIN flds \ {e.f} |-> flds[x]] /\ UNCHANGED <<regs, pps, memo>>
  \/ e.op = "setnqr" /\ Frame(e, {}) /\ flds' = [flds EXCEPT ![e.f] = ("nq" :> A(e, 1)) @@ @] /\ UNCHANGED <<regs, pps, memo>>
  \/ /\ e.op = "getnqr" /\ LET v == New(e, e.a[1]) s == flds[e.f] IN
        /\ RIn(s, v) /\ ~RIsSquare(s, v) /\ ("nq" \in DOMAIN s => v = s.nq)
        /\ flds' = [flds EXCEPT ![e.f] = ("nq" :> v) @@ @] /\ regs' = [regs EXCEPT ![e.a[1]].v = v]
     /\ UNCHANGED <<pps, memo>>
\* The structure the library built is the one asked for.
FieldOk(e) ==
  LET d == e.d IN
  CASE e.k = "fi" -> d.nqr = RNeg(d.b, ROne(d.b))
    [] e.k = "gf32m" -> d.nqr = RNeg(d.b, ROne(d.b))
    [] e.k = "quad" -> ~RIsSquare(d.b, d.nqr) /\ (("of" \in DOMAIN e /\ "nq" \in DOMAIN flds[e.of]) => d.nqr = flds[e.of].nq)
    [] e.k = "zn" /\ "ask" \in DOMAIN e -> d.n = e.ask /\ e.ord = e.ask
    [] e.k = "ec" /\ "ra" \in DOMAIN e -> d.a4 = Val(e.ra) /\ d.a6 = Val(e.rb) /\ d.r = e.ask
    [] e.k = "ecb" -> d.a4 = RZero(d.b) /\ d.a6 = Val(e.rb) /\ d.r = e.ask
    [] e.k = "ecj" -> CurveHasJ(d.b, d.a4, d.a6, Val(e.rb)) /\ d.r = e.ask
    [] e.k = "ecmap" -> d.a4 = Embed(d.b, flds[e.of].a4) /\ d.a6 = Embed(d.b, flds[e.of].a6) /\ d.r = e.ask
    [] e.k = "twist" -> LET o == flds[e.f] IN d.b = o.b /\ d.r = o.r /\ IsTwist(d.b, o.a4, o.a6, d.a4, d.a6)
    [] e.k = "polymod" -> LET f == Val(e.poly) IN d.n = Len(f) - 1 /\ (d.n > 1 => \A j \in 1..d.n : d.red[j] = RNeg(d.b, f[j]))
    [] OTHER -> TRUE
StepDecl(e) ==
  \/ e.op = "pairing" /\ e.r = 0 /\ UNCHANGED <<flds, regs, pps, memo>>
  \/ e.op = "field" /\ FieldOk(e) /\ flds' = (e.f :> ([k |-> e.k, p |-> Opt(e, "p", ""), cof |-> Opt(e, "cof", <<1>>)] @@ e.d)) @@ flds /\ UNCHANGED <<regs, pps, memo>>
  \/ /\ e.op = "elem"
     /\ New(e, e.a[1]) = Id0(flds[e.f])
     /\ Flags(e, flds[e.f])
     /\ regs' = (e.a[1] :> [f |-> e.f, v |-> New(e, e.a[1])]) @@ regs
     /\ UNCHANGED <<flds, pps, memo>>
  \/ /\ e.op = "clear"
     /\ regs' = [r \in DOMAIN regs \ {e.a[1]} |-> regs[r]]
     /\ UNCHANGED <<flds, pps, memo>>
  \/ /\ e.op = "ppinit" /\ Frame(e, {})
     /\ pps' = (e.pp :> regs[e.a[1]]) @@ pps
     /\ UNCHANGED <<flds, regs, memo>>
  \/ /\ e.op = "ppclear" /\ pps' = [p \in DOMAIN pps \ {e.pp} |-> pps[p]] /\ UNCHANGED <<flds, regs, memo>>

\* Byte forms, text forms, hashing: what the destination or the output must be.
Annihilated(s, v) == CASE s.t = "ec" -> EIsMul(s, s.r, v, <<>>) [] OTHER -> TRUE
IsSameX(C, c, x) == IF RIsSquare(C.b, TLCEval(CurveRhs(C, x))) THEN c # <<>> /\ EOn(C, c) /\ c[1] = x ELSE c = <<>>
IOResult(e, s, c) ==
  CASE e.op = "tobytes" -> e.len = SLen(s, c) /\ e.r = e.len /\ e.over = 0 /\ IsEnc(s, e.b, c)
    [] e.op = "tobytesx" -> c # <<>> /\ e.len = SLen(s.b, c[1]) /\ e.r = e.len /\ e.over = 0 /\ e.b = Enc(s.b, c[1])
    [] e.op = "tobytesc" -> /\ c # <<>> /\ e.len = SLen(s.b, c[1]) + 1 /\ e.r = e.len /\ e.over = 0
                            /\ SubSeq(e.b, 1, e.len - 1) = Enc(s.b, c[1]) /\ e.b[e.len] \in {0, 1}
    [] e.op = "frombytes" -> LET v == Dec(s, e.b) IN c = v /\ e.r = SLen(s, IF s.t = "poly" THEN TSeq(e.b[1] + 256 * e.b[2], LAMBDA k : 0) ELSE v)
    [] e.op = "frombytesx" -> e.r = SLen(s.b, RZero(s.b)) /\ IsSameX(s, c, Dec(s.b, SubSeq(e.b, 1, e.r)))
    [] e.op = "frombytesc" -> /\ e.r = SLen(s.b, RZero(s.b)) + 1 /\ IsSameX(s, c, Dec(s.b, SubSeq(e.b, 1, e.r - 1)))
                              /\ Memo(<<"fbc", regs[e.a[1]].f, SubSeq(e.b, 1, e.r - 1), IF c # <<>> /\ c[2] # RZero(s.b) THEN e.b[e.r] # 0 ELSE FALSE>>, c)
    [] e.op = "rt" -> c = A(e, 2) /\ e.w = e.len /\ e.r = e.len /\ e.over = 0 /\ e.len = SLen(s, c) /\ IsEnc(s, e.b, A(e, 2))
    [] e.op = "rtc" -> c = A(e, 2) /\ e.w = e.len /\ e.r = e.len /\ e.over = 0
    [] e.op = "rtx" -> A(e, 2) # <<>> /\ (c = A(e, 2) \/ c = ENeg(s, A(e, 2))) /\ e.w = e.len /\ e.r = e.len /\ e.over = 0
    [] e.op = "snprint" -> LET w == TLCEval(Text(s, c, 10)) n == IF e.size = 0 THEN 0 ELSE e.size - 1 IN
                           /\ e.r = Len(w) /\ e.over = 0 /\ e.term = 1
                           /\ e.b = SubSeq(w, 1, IF n < Len(w) THEN n ELSE Len(w))
    [] e.op = "outstr" -> e.b = Text(s, c, e.base) /\ e.r = Len(e.b)
    [] e.op = "setstr" -> LET r == TLCEval(Parse(s, e.b, 1, e.base)) IN
                          IF r.ok THEN c = r.v /\ e.r = r.p - 1 ELSE e.r = 0 /\ SIn(s, c)
    [] e.op = "rtstr" -> c = A(e, 2) /\ e.b = Text(s, c, e.base) /\ e.w = Len(e.b) /\ e.r = e.w
    [] e.op = "hash" -> /\ CASE s.t = "ec" -> IsHashPt(s, c, e.b, s.cof) /\ (s.k = "G1" => Annihilated(s, c))
                             [] s.t = "gt" -> RIn(s.b, c) /\ RPow(s.b, c, s.r) = ROne(s.b)
                             [] OTHER -> c = HashR(s, e.b)
                        /\ Memo(<<"hash", [s EXCEPT !.p = ""], e.b>>, c)
    [] e.op = "item" -> e.cnt = Len(A(e, 2)) /\ c = A(e, 2)[e.i + 1]
    [] e.op = "ecfromx" -> IsSameX(s, c, A(e, 2))
    [] OTHER -> FALSE
NoDest == {"tobytes", "tobytesx", "tobytesc", "snprint", "outstr"}
IODest == {"frombytes", "frombytesx", "frombytesc", "rt", "rtc", "rtx", "setstr", "rtstr", "hash", "item", "ecfromx"}
StepIO(e) ==
  /\ e.op \in NoDest \cup IODest
  /\ LET d == e.a[1] s == S(d) c == New(e, d) IN
     /\ Frame(e, IF e.op \in NoDest THEN {} ELSE {d})
     /\ Flags(e, s)
     /\ IOResult(e, s, c)
     /\ regs' = [regs EXCEPT ![d].v = c]
  /\ (e.op \notin {"hash", "frombytesc"} => UNCHANGED memo)
  /\ UNCHANGED <<flds, pps>>

\* Several destinations at once.
Dests(e, n) == {e.a[k] : k \in 1..n}
StepMulti(e) ==
  /\ e.op \in {"mdbl", "madd"}
  /\ Frame(e, Dests(e, e.n))
  /\ \A k \in 1..e.n :
       LET s == S(e.a[k]) c == New(e, e.a[k]) IN
       IF e.op = "mdbl" THEN SIsAdd(s, c, A(e, e.n + k), A(e, e.n + k))
       ELSE SIsAdd(s, c, A(e, e.n + k), A(e, 2 * e.n + k))
  /\ regs' = [r \in DOMAIN regs |-> IF r \in Dests(e, e.n) THEN [regs[r] EXCEPT !.v = New(e, r)] ELSE regs[r]]
  /\ UNCHANGED <<flds, pps, memo>>

Init == i = 0 /\ flds = <<>> /\ regs = <<>> /\ pps = <<>> /\ memo = <<>>
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i + 1] IN StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e) \/ StepBuild(e)
Spec == Init /\ [][Next]_vars
View == i
Accepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ Len(Trace) > 0 /\ Trace[Len(Trace)].op = "end"
=============================================================================
