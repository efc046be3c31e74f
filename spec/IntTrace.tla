------------------------------ MODULE IntTrace ------------------------------
(* The register machine again, for registers that hold integers and integer   *)
(* multinomials, and for their assignment to elements of other structures.    *)
(* A register keeps the list as written down; answers are compared as         *)
(* multinomials (Canon), text as written.                                     *)
EXTENDS AlgTrace, Mz
\* Integers are treated as multinomials that never are lists.
IsInt(s) == s.t \in {"z", "mz"}
Lift(s, v) == IF s.t = "z" THEN MkI(v) ELSE v
V(r) == TLCEval(Lift(S(r), Val(r)))
NV(e, r) == TLCEval(Lift(S(r), New(e, r)))
RECURSIVE WellFormed(_)
WellFormed(m) == IF IsZ(m) THEN RIn([t |-> "z"], m.z) ELSE m.l # <<>> /\ \A k \in 1..Len(m.l) : WellFormed(m.l[k])

IntResult(e, c) ==
  LET a == TLCEval(V(e.a[2])) b == TLCEval(V(e.a[3])) old == TLCEval(V(e.a[1])) eq(x) == MEq(c, x) n == e.n IN
  CASE e.op = "set" -> eq(a)
    [] e.op = "set0" -> eq(MkI(Z0))
    [] e.op = "set1" -> eq(MkI(Z1))
    [] e.op \in {"setsi", "setmpz"} -> eq(MkI(n))
    [] e.op = "add" -> eq(MAdd(a, b))
    [] e.op = "sub" -> eq(MAdd(a, TLCEval(MMap("neg", b, Z0))))
    [] e.op = "mul" -> eq(MMul(a, b))
    [] e.op = "neg" -> eq(MMap("neg", a, Z0))
    [] e.op = "dbl" -> eq(MAdd(a, a))
    [] e.op = "sq" -> eq(MMul(a, a))
    [] e.op = "halve" -> IsZ(a) /\ eq(MkI(ZTDiv(a.z, <<1, <<2>>>>)))
    [] e.op \in {"mulmpz", "mulsi"} -> eq(MMap("scale", a, n))
    [] e.op = "addui" -> eq(MAdd(a, MkI(n)))
    [] e.op = "powmpz" -> eq(IF IsZ(a) THEN MkI(ZPow(a.z, n[2])) ELSE MPow(a, BToInt(n[2])))
    [] e.op = "div" -> ConstTerm(b) # Z0 /\ eq(MMap("tdiv", a, ConstTerm(b)))
    [] e.op = "inv" -> eq(IF a.z[2] = <<1>> THEN a ELSE MkI(Z0))
    [] e.op = "sqrt" -> IF ZIsSquare(a.z) THEN e.r = 1 /\ c.z = MkZ(1, ISqrt(a.z[2])) ELSE e.r = 0 /\ c = old
    [] e.op = "hash" -> eq(MkI(MkZ(1, FromBE(Reverse(e.b), 1, <<>>))))
    [] e.op = "setstr" -> LET r == TLCEval(ZParse(e.b, e.base)) IN eq(MkI(r.v)) /\ e.r = r.used
    [] e.op = "rtstr" -> e.b = MText(a, e.base) /\ e.w = Len(e.b) /\ (IsZ(a) => eq(a) /\ e.r = e.w)
    [] e.op = "rt" -> e.w = e.len /\ e.over = 0 /\ (IsZ(a) => eq(a) /\ e.r = e.len /\ e.b = ZBytes(a.z))
    [] e.op = "frombytes" -> eq(MkI(ZOfBytes(e.b))) /\ e.r = ZBytesN(e.b) + 4
    [] e.op = "mznewlist" -> c = [l |-> <<a>>]
    [] e.op = "mzappend" -> ~IsZ(old) /\ c = [l |-> Append(old.l, a)]
    [] e.op = "item" -> ~IsZ(a) /\ e.cnt = Len(a.l) /\ eq(a.l[e.i + 1])
    [] e.op = "setmultiz" -> IF S(e.a[1]).t = "z" THEN eq(MkI(ConstTerm(a))) ELSE eq(a)
    [] OTHER -> FALSE
IntOps == {"set", "set0", "set1", "setsi", "setmpz", "add", "sub", "mul", "neg", "dbl", "sq", "halve", "mulmpz", "mulsi", "addui", "powmpz", "div", "inv", "sqrt",
           "hash", "setstr", "rtstr", "rt", "frombytes", "mznewlist", "mzappend", "item", "setmultiz"}
IntFlags(e, c) == /\ (Has(e, "is0") => (e.is0 = 1) = MEq(c, MkI(Z0)))
                  /\ (Has(e, "is1") => (e.is1 = 1) = MEq(c, MkI(Z1)))
IntQuery(e, a) ==
  CASE e.op = "cmp" -> LET k == MCmp(a, V(e.a[2])) IN (e.r = 0) = (k = 0) /\ e.s = k
    [] e.op = "sign" -> IsZ(a) => e.r = a.z[1] /\ e.rn = -e.r
    [] e.op = "issqr" -> (e.r = 1) = ZIsSquare(a.z)
    [] e.op = "outstr" -> e.b = MText(a, e.base) /\ e.r = Len(e.b)
    [] e.op = "tobytes" -> e.r = e.len /\ e.over = 0 /\ (IsZ(a) => e.b = ZBytes(a.z))
    [] e.op = "tosi" -> IsZ(a) => e.n = a.z
    [] e.op = "skip" -> ConstTerm(V(e.a[2])) = Z0
    [] e.op = "skipmz" -> IsZ(V(e.a[Len(e.a)]))
    [] OTHER -> FALSE
IntStep(e) ==
  IF e.op = "elem" THEN
    LET s == flds[e.f] c == Lift(s, New(e, e.a[1])) IN
    /\ MEq(c, MkI(Z0)) /\ IntFlags(e, c)
    /\ regs' = (e.a[1] :> [f |-> e.f, v |-> New(e, e.a[1])]) @@ regs
    /\ UNCHANGED <<flds, pps, memo>>
  ELSE IF e.op \in IntOps THEN
    LET d == e.a[1] c == NV(e, d) IN
    /\ WellFormed(c) /\ Frame(e, {d}) /\ IntFlags(e, c) /\ IntResult(e, c)
    /\ regs' = [regs EXCEPT ![d].v = New(e, d)]
    /\ UNCHANGED <<flds, pps, memo>>
  ELSE IntQuery(e, V(e.a[1])) /\ Quiet(e)
\* An element of another structure made from a multinomial.
Given(e) ==
  LET d == e.a[1] s == S(d) c == New(e, d) m == V(e.a[2]) IN
  /\ Frame(e, {d}) /\ Flags(e, s)
  /\ IF s.t = "ec" THEN IF IsZ(m) THEN IF m.z = Z0 THEN c = <<>> ELSE SIn(s, c)
                        ELSE IF Len(m.l) < 2 THEN SIn(s, c)
                        ELSE LET P == TLCEval(<<Assign(s.b, m.l[1]), Assign(s.b, m.l[2])>>) IN c = IF EOn(s, P) THEN P ELSE <<>>
     ELSE c = Assign(s, m)
  /\ regs' = [regs EXCEPT ![d].v = c] /\ UNCHANGED <<flds, pps, memo>>
ForInts(e) == IF e.op = "elem" THEN IsInt(flds[e.f]) ELSE Has(e, "a") /\ e.op # "clear" /\ e.a # <<>> /\ IsInt(S(e.a[1]))
IntNext == /\ i < Len(Trace)
           /\ i' = i + 1
           /\ LET e == Trace[i + 1] IN
              IF ForInts(e) THEN IntStep(e)
              ELSE IF e.op = "setmultiz" THEN Given(e)
              ELSE StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e)
IntSpec == Init /\ [][IntNext]_vars
=============================================================================
