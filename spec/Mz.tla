--------------------------------- MODULE Mz ---------------------------------
(* The integers and the ring of integer multinomials libpbc uses as an        *)
(* interchange format.  A multinomial is an integer [z |-> <<sign, limbs>>]   *)
(* or a list [l |-> items]: items are the coefficients of the powers of the   *)
(* variable of that depth, constant first, and are multinomials in the        *)
(* deeper variables.  Several lists denote one multinomial; Canon picks one.  *)
EXTENDS Ser
Z0 == <<0, <<>>>>
Z1 == <<1, <<1>>>>
MkZ(s, m) == IF m = <<>> THEN Z0 ELSE <<s, m>>
ZTDiv(a, d) == MkZ(a[1] * d[1], BDiv(a[2], d[2]))         \* truncates towards zero; d # 0
ZCmp(a, b) == ZAdd(a, ZNeg(b))[1]
ZPow(a, e) == IF e = <<>> THEN Z1 ELSE MkZ(IF a[1] < 0 /\ BBit(e, 0) = 1 THEN -1 ELSE 1, BPowInt(a[2], BToInt(e)))
\* Integer square root by Newton's iteration, from above.
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == TLCEval(BDiv(BAdd(x, BDiv(n, x)), <<2>>)) IN IF BCmp(y, x) >= 0 THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = <<>> THEN n ELSE Newton(n, BPowInt(<<2>>, (BBitLen(n) + 1) \div 2))
ZIsSquare(a) == a[1] >= 0 /\ LET r == ISqrt(a[2]) IN BMul(r, r) = a[2]

IsZ(m) == "z" \in DOMAIN m
MkI(z) == [z |-> z]
Items(m) == IF IsZ(m) THEN <<m>> ELSE m.l
RECURSIVE TrimZ(_), Canon(_), MAdd(_, _), MMap(_, _, _), MMul(_, _), MSum(_, _, _, _)
TrimZ(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = MkI(Z0) THEN TrimZ(TLCEval(SubSeq(s, 1, Len(s) - 1))) ELSE s
Canon(m) == IF IsZ(m) THEN m
            ELSE LET s == TLCEval(TrimZ(TSeq(Len(m.l), LAMBDA k : Canon(TLCEval(m.l[k]))))) IN
                 IF s = <<>> THEN MkI(Z0) ELSE IF Len(s) = 1 /\ IsZ(s[1]) THEN s[1] ELSE [l |-> s]
MAt(m, k) == IF k <= Len(Items(m)) THEN Items(m)[k] ELSE MkI(Z0)
Max2(a, b) == IF a > b THEN a ELSE b
MAdd(a, b) == IF IsZ(a) /\ IsZ(b) THEN MkI(ZAdd(a.z, b.z))
              ELSE [l |-> TSeq(Max2(Len(Items(a)), Len(Items(b))), LAMBDA k : MAdd(TLCEval(MAt(a, k)), TLCEval(MAt(b, k))))]
\* coefficientwise: op in {"neg", "scale", "tdiv"}
MMap(op, m, z) == IF IsZ(m) THEN MkI(CASE op = "neg" -> ZNeg(m.z) [] op = "scale" -> ZMul(m.z, z) [] op = "tdiv" -> ZTDiv(m.z, z))
                  ELSE [l |-> TSeq(Len(m.l), LAMBDA k : MMap(op, TLCEval(m.l[k]), z))]
MSum(a, b, k, j) ==          \* coefficient k of the product, from term j on
  IF j > k THEN MkI(Z0) ELSE MAdd(TLCEval(MMul(TLCEval(MAt(a, j)), TLCEval(MAt(b, k - j + 1)))), TLCEval(MSum(a, b, k, j + 1)))
MMul(a, b) == IF IsZ(a) /\ IsZ(b) THEN MkI(ZMul(a.z, b.z))
              ELSE [l |-> TSeq(Len(Items(a)) + Len(Items(b)) - 1, LAMBDA k : MSum(a, b, k, 1))]
RECURSIVE MPow(_, _), ConstTerm(_), LeadSgn(_), MText(_, _), Assign(_, _)
MPow(a, n) == IF n = 0 THEN MkI(Z1) ELSE Canon(TLCEval(MMul(a, TLCEval(MPow(a, n - 1)))))
MEq(a, b) == LET x == TLCEval(a) y == TLCEval(b) IN Canon(x) = Canon(y)
ConstTerm(m) == IF IsZ(m) THEN m.z ELSE ConstTerm(m.l[1])
LeadSgn(m) == IF IsZ(m) THEN m.z[1] ELSE LeadSgn(m.l[Len(m.l)])        \* of a canonical one
MCmp(a, b) == LeadSgn(TLCEval(Canon(TLCEval(MAdd(a, TLCEval(MMap("neg", b, Z0)))))))
MText(m, base) == IF IsZ(m) THEN SignedText(m.z, base)
                  ELSE <<91>> \o Concat(LAMBDA k : (IF k > 1 THEN <<44, 32>> ELSE <<>>) \o MText(m.l[k], base), 1, Len(m.l)) \o <<93>>
\* The element of S a multinomial written down as m stands for (rings only).
Assign(S, m) ==
  CASE S.t = "zn" -> RFromZ(S, ConstTerm(m))
    [] S.t = "z" -> ConstTerm(m)
    [] S.t = "quad" -> <<Assign(S.b, MAt(m, 1)), Assign(S.b, MAt(m, 2))>>
    [] S.t = "pm" -> TSeq(S.n, LAMBDA k : Assign(S.b, MAt(m, k)))
    [] S.t = "poly" -> PStrip(S.b, TSeq(Len(Items(m)), LAMBDA k : Assign(S.b, MAt(m, k))))
    [] S.t = "gt" -> Assign(S.b, m)

-----------------------------------------------------------------------------
\* Byte form of an integer: four bytes of length, then that many bytes, most significant first, whose top bit is the sign.
ZBody(z) == BBitLen(z[2]) \div 8 + 1
ZBytes(z) == LET n == ZBody(z) b == ToBE(z[2], n, <<>>) IN
             ToBE(BFromInt(n), 4, <<>>) \o (IF z[1] < 0 THEN [b EXCEPT ![1] = @ + 128] ELSE b)
ZBytesN(s) == BToInt(FromBE(SubSeq(s, 1, 4), 1, <<>>))
ZOfBytes(s) == LET n == ZBytesN(s) b == SubSeq(s, 5, n + 4) IN
               IF n = 0 THEN Z0
               ELSE IF b[1] >= 128 THEN MkZ(-1, FromBE([b EXCEPT ![1] = @ - 128], 1, <<>>)) ELSE MkZ(1, FromBE(b, 1, <<>>))
\* Text of an integer: white space, a minus sign or none, digits (white space among them is skipped).
ZParse(s, base) == LET p == SkipSp(s, 1) neg == At(s, p) = 45 q == IF neg THEN p + 1 ELSE p r == TLCEval(Num(s, q, base, <<>>)) IN
                   [v |-> MkZ(IF neg THEN -1 ELSE 1, r.v), used |-> IF r.p = q THEN 0 ELSE r.p - 1]
=============================================================================
