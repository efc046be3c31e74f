-------------------------------- MODULE Alg --------------------------------
(* The algebraic structures libpbc implements, as mathematics.                *)
(*   zn    Z/nZ                      naturals below n                         *)
(*   z     the integers              <<sign, magnitude>>                      *)
(*   quad  B[s]/(s^2 - nqr)          <<x, y>>                                 *)
(*   pm    B[x]/(x^n - red)          n coefficients                           *)
(*   poly  B[x]                      coefficients, no leading zero            *)
(*   g3    GF(3)[x]/(x^m + x^t + 2)  m digits                                 *)
(*   g33   B[x]/(x^3 - x - 1)        3 coefficients                           *)
(*   ec    points of y^2 = x^3 + a4 x + a6 over B: <<>> or <<x, y>>           *)
(*   gt    the multiplicative group of B, written with either notation        *)
(* A structure is a record with field t; operators take the structure first.  *)
EXTENDS BigNat, SmallPoly, Integers, Sequences, FiniteSets, TLC

IsGroup(S) == S.t \in {"ec", "gt"}

RECURSIVE RZero(_), ROne(_), RAdd(_, _, _), RNeg(_, _), RMulDef(_, _, _), RIn(_, _), RFromNat(_, _)

TSeq(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

RECURSIVE PStrip(_, _)
PStrip(B, p) == IF p = <<>> THEN p
                ELSE IF p[Len(p)] = RZero(B) THEN PStrip(B, TLCEval(SubSeq(p, 1, Len(p) - 1))) ELSE p
PAt(B, p, i) == IF i <= Len(p) THEN p[i] ELSE RZero(B)

RZero(S) == CASE S.t = "zn" -> <<>>
              [] S.t = "z" -> <<0, <<>>>>
              [] S.t = "quad" -> LET o == RZero(S.b) IN <<o, o>>
              [] S.t = "pm" -> LET o == RZero(S.b) IN TSeq(S.n, LAMBDA i : o)
              [] S.t = "g33" -> LET o == RZero(S.b) IN <<o, o, o>>
              [] S.t = "poly" -> <<>>
              [] S.t = "g3" -> TSeq(S.m, LAMBDA i : 0)
ROne(S) == CASE S.t = "zn" -> BMod(<<1>>, S.n)
             [] S.t = "z" -> <<1, <<1>>>>
             [] S.t = "quad" -> <<ROne(S.b), RZero(S.b)>>
             [] S.t = "pm" -> LET o == RZero(S.b) e == ROne(S.b) IN TSeq(S.n, LAMBDA i : IF i = 1 THEN e ELSE o)
             [] S.t = "g33" -> <<ROne(S.b), RZero(S.b), RZero(S.b)>>
             [] S.t = "poly" -> PStrip(S.b, <<ROne(S.b)>>)
             [] S.t = "g3" -> TSeq(S.m, LAMBDA i : IF i = 1 THEN 1 ELSE 0)

\* Is v the canonical representation of an element of S?
RIn(S, v) ==
  CASE S.t = "zn" -> /\ \A i \in 1..Len(v) : v[i] \in 0..32767
                     /\ (v # <<>> => v[Len(v)] # 0)
                     /\ BCmp(v, S.n) < 0
    [] S.t = "z" -> v[1] \in -1..1 /\ (v[1] = 0 <=> v[2] = <<>>)
    [] S.t = "quad" -> Len(v) = 2 /\ RIn(S.b, v[1]) /\ RIn(S.b, v[2])
    [] S.t = "pm" -> Len(v) = S.n /\ \A i \in 1..S.n : RIn(S.b, v[i])
    [] S.t = "g33" -> Len(v) = 3 /\ \A i \in 1..3 : RIn(S.b, v[i])
    [] S.t = "poly" -> (\A i \in 1..Len(v) : RIn(S.b, v[i])) /\ (v # <<>> => v[Len(v)] # RZero(S.b))
    [] S.t = "g3" -> Len(v) = S.m /\ \A i \in 1..S.m : v[i] \in 0..2

\* Signed integers.
ZNeg(a) == <<-a[1], a[2]>>
ZAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN <<a[1], BAdd(a[2], b[2])>>
              ELSE LET c == BCmp(a[2], b[2]) IN
                   IF c = 0 THEN <<0, <<>>>>
                   ELSE IF c > 0 THEN <<a[1], BSub(a[2], b[2])>> ELSE <<b[1], BSub(b[2], a[2])>>
ZMul(a, b) == IF a[1] * b[1] = 0 THEN <<0, <<>>>> ELSE <<a[1] * b[1], BMul(a[2], b[2])>>
ZOfInt(k) == IF k = 0 THEN <<0, <<>>>> ELSE IF k > 0 THEN <<1, BFromInt(k)>> ELSE <<-1, BFromInt(-k)>>

RAdd(S, a, b) ==
  CASE S.t = "zn" -> BAddMod(a, b, S.n)
    [] S.t = "z" -> ZAdd(a, b)
    [] S.t = "quad" -> <<RAdd(S.b, a[1], b[1]), RAdd(S.b, a[2], b[2])>>
    [] S.t = "pm" -> TSeq(S.n, LAMBDA i : RAdd(S.b, a[i], b[i]))
    [] S.t = "g33" -> <<RAdd(S.b, a[1], b[1]), RAdd(S.b, a[2], b[2]), RAdd(S.b, a[3], b[3])>>
    [] S.t = "poly" -> PStrip(S.b, TSeq(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b),
                                       LAMBDA i : RAdd(S.b, PAt(S.b, a, i), PAt(S.b, b, i))))
    [] S.t = "g3" -> TSeq(S.m, LAMBDA i : (a[i] + b[i]) % 3)
RNeg(S, a) ==
  CASE S.t = "zn" -> BSubMod(<<>>, a, S.n)
    [] S.t = "z" -> ZNeg(a)
    [] S.t = "quad" -> <<RNeg(S.b, a[1]), RNeg(S.b, a[2])>>
    [] S.t = "pm" -> TSeq(S.n, LAMBDA i : RNeg(S.b, a[i]))
    [] S.t = "g33" -> <<RNeg(S.b, a[1]), RNeg(S.b, a[2]), RNeg(S.b, a[3])>>
    [] S.t = "poly" -> TSeq(Len(a), LAMBDA i : RNeg(S.b, a[i]))
    [] S.t = "g3" -> TSeq(S.m, LAMBDA i : (3 - a[i]) % 3)
RSub(S, a, b) == RAdd(S, a, RNeg(S, b))

\* Plain product of coefficient sequences (length Len(a)+Len(b)-1).
RECURSIVE SumProd(_, _, _, _, _, _)
SumProd(B, a, b, k, i, acc) ==      \* sum over i of a[i] * b[k - i + 1]
  IF i > Len(a) \/ i > k THEN acc
  ELSE SumProd(B, a, b, k, i + 1,
               IF k - i + 1 <= Len(b) THEN TLCEval(RAdd(B, acc, RMulDef(B, a[i], b[k - i + 1]))) ELSE acc)
CMul(B, a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                 ELSE TSeq(Len(a) + Len(b) - 1, LAMBDA k : SumProd(B, a, b, k, 1, RZero(B)))
\* Replace x^n by red, highest coefficient first.
RECURSIVE Reduce(_, _, _, _)
Reduce(B, c, n, red) ==
  IF Len(c) <= n THEN c
  ELSE LET L == Len(c)
           v == c[L]
       IN Reduce(B, TLCEval([i \in 1..(L - 1) |->
                   IF i > L - 1 - n THEN RAdd(B, c[i], RMulDef(B, v, red[i - (L - 1 - n)])) ELSE c[i]]), n, red)

RMulDef(S, a, b) ==
  CASE S.t = "zn" -> BMulMod(a, b, S.n)
    [] S.t = "z" -> ZMul(a, b)
    [] S.t = "quad" -> LET x1 == a[1] y1 == a[2] x2 == b[1] y2 == b[2] IN
         <<RAdd(S.b, RMulDef(S.b, x1, x2), RMulDef(S.b, S.nqr, RMulDef(S.b, y1, y2))),
           RAdd(S.b, RMulDef(S.b, x1, y2), RMulDef(S.b, x2, y1))>>
    [] S.t = "pm" -> Reduce(S.b, CMul(S.b, a, b), S.n, S.red)
    [] S.t = "g33" -> LET e == ROne(S.b) IN Reduce(S.b, CMul(S.b, a, b), 3, <<e, e, RZero(S.b)>>)
    [] S.t = "poly" -> PStrip(S.b, CMul(S.b, a, b))
    [] S.t = "g3" -> G3Mul(a, b, S.m, S.tt)

\* RFastMul is RMulDef, evaluated by Alg.java (for the finite rings); AlgCheck compares them.
RFastMul(S, a, b) == RMulDef(S, a, b)
RMul(S, a, b) == IF S.t \in {"quad", "pm", "g33"} THEN RFastMul(S, a, b) ELSE RMulDef(S, a, b)

\* The image of a natural number.
RFromNat(S, k) ==
  CASE S.t = "zn" -> BMod(k, S.n)
    [] S.t = "z" -> <<IF k = <<>> THEN 0 ELSE 1, k>>
    [] S.t = "quad" -> <<RFromNat(S.b, k), RZero(S.b)>>
    [] S.t = "pm" -> LET o == RZero(S.b) e == RFromNat(S.b, k) IN TSeq(S.n, LAMBDA i : IF i = 1 THEN e ELSE o)
    [] S.t = "g33" -> <<RFromNat(S.b, k), RZero(S.b), RZero(S.b)>>
    [] S.t = "poly" -> PStrip(S.b, <<RFromNat(S.b, k)>>)
    [] S.t = "g3" -> LET v == BToInt(BMod(k, <<3>>)) IN TSeq(S.m, LAMBDA i : IF i = 1 THEN v ELSE 0)
RFromZ(S, z) == IF z[1] < 0 THEN RNeg(S, RFromNat(S, z[2])) ELSE RFromNat(S, z[2])

\* a^e for a natural e (bits i and up).
RECURSIVE RPowBits(_, _, _, _)
RPowBits(S, a, e, i) ==
  IF i = BBitLen(e) THEN ROne(S)
  ELSE LET h == TLCEval(RPowBits(S, a, e, i + 1))
           s == TLCEval(RMul(S, h, h))
       IN IF BBit(e, i) = 1 THEN TLCEval(RMul(S, s, a)) ELSE s
RPowDef(S, a, e) == RPowBits(S, TLCEval(a), TLCEval(e), 0)
RFastPow(S, a, e) == RPowDef(S, a, e)
RPow(S, a, e) == IF S.t = "zn" THEN BPowMod(a, e, S.n) ELSE IF S.t \in {"quad", "pm", "g33", "g3"} THEN RFastPow(S, a, e) ELSE RPowDef(S, a, e)

\* Number of elements of a finite structure.
RECURSIVE RCard(_)
RCard(S) == CASE S.t = "zn" -> S.n
              [] S.t = "quad" -> BPowInt(RCard(S.b), 2)
              [] S.t = "pm" -> BPowInt(RCard(S.b), S.n)
              [] S.t = "g33" -> BPowInt(RCard(S.b), 3)
              [] S.t = "g3" -> BPowInt(<<3>>, S.m)

\* Inverse of a nonzero element of a field (used on small structures and over zn, quad).
RECURSIVE RInvDef(_, _)
RInvDef(S, a) ==
  CASE S.t = "zn" -> BInvMod(a, S.n)
    [] S.t = "quad" -> LET nrm == TLCEval(RSub(S.b, RMul(S.b, a[1], a[1]), RMul(S.b, S.nqr, RMul(S.b, a[2], a[2]))))
                           d == TLCEval(RInvDef(S.b, nrm))
                       IN <<RMul(S.b, a[1], d), RMul(S.b, RNeg(S.b, a[2]), d)>>
    [] OTHER -> RPow(S, a, BSub(RCard(S), <<2>>))
RFastInv(S, a) == RInvDef(S, a)
RInv(S, a) == RFastInv(S, a)

\* Is a a square in the (finite, odd characteristic) field S?  Euler's criterion.
RIsSquare(S, a) == a = RZero(S) \/ RPow(S, a, BDiv(BSub(RCard(S), <<1>>), <<2>>)) = ROne(S)

-----------------------------------------------------------------------------
(* Elliptic curves: y^2 = x^3 + a4 x + a6 over the field C.b.                 *)
EOn(C, P) == \/ P = <<>>
             \/ /\ Len(P) = 2 /\ RIn(C.b, P[1]) /\ RIn(C.b, P[2])
                /\ LET B == C.b x == P[1] y == P[2] IN
                   RMul(B, y, y) = RAdd(B, RMul(B, RAdd(B, RMul(B, x, x), C.a4), x), C.a6)
ENeg(C, P) == IF P = <<>> THEN P ELSE <<P[1], RNeg(C.b, P[2])>>
EAdd(C, P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE LET B == C.b x1 == P[1] y1 == P[2] x2 == Q[1] y2 == Q[2] IN
    IF x1 = x2 /\ RAdd(B, y1, y2) = RZero(B) THEN <<>>
    ELSE LET lam == TLCEval(
               IF x1 = x2
               THEN RMul(B, RAdd(B, RMul(B, RFromNat(B, <<3>>), RMul(B, x1, x1)), C.a4), RInv(B, RAdd(B, y1, y1)))
               ELSE RMul(B, RSub(B, y2, y1), RInv(B, RSub(B, x2, x1))))
             x3 == TLCEval(RSub(B, RSub(B, RMul(B, lam, lam), x1), x2))
             y3 == TLCEval(RSub(B, RMul(B, lam, RSub(B, x1, x3)), y1))
         IN <<x3, y3>>

\* S = P + Q without inversions: the unique (x3, y3) the chord/tangent determines.
EIsSum(C, P, Q, S) ==
  IF P = <<>> THEN S = Q ELSE IF Q = <<>> THEN S = P
  ELSE LET B == C.b x1 == P[1] y1 == P[2] x2 == Q[1] y2 == Q[2] IN
    IF x1 = x2 /\ RAdd(B, y1, y2) = RZero(B) THEN S = <<>>
    ELSE /\ S # <<>>
         /\ LET num == TLCEval(IF x1 = x2 THEN RAdd(B, RMul(B, RFromNat(B, <<3>>), RMul(B, x1, x1)), C.a4) ELSE RSub(B, y2, y1))
                den == TLCEval(IF x1 = x2 THEN RAdd(B, y1, y1) ELSE RSub(B, x2, x1))
                x3 == S[1] y3 == S[2]
            IN /\ RIn(B, x3) /\ RIn(B, y3)
               /\ RMul(B, RAdd(B, RAdd(B, x3, x1), x2), RMul(B, den, den)) = RMul(B, num, num)
               /\ RMul(B, RAdd(B, y3, y1), den) = RMul(B, num, RSub(B, x1, x3))

\* Jacobian arithmetic <<X, Y, Z>>, x = X/Z^2, y = Y/Z^3, infinity has Z = 0.
JInf(C) == <<ROne(C.b), ROne(C.b), RZero(C.b)>>
JDbl(C, J) ==
  LET B == C.b X == J[1] Y == J[2] Z == J[3] IN
  IF Z = RZero(B) \/ Y = RZero(B) THEN JInf(C)
  ELSE LET YY == TLCEval(RMul(B, Y, Y))
           ZZ == TLCEval(RMul(B, Z, Z))
           S == TLCEval(RMul(B, RFromNat(B, <<4>>), RMul(B, X, YY)))
           M == TLCEval(RAdd(B, RMul(B, RFromNat(B, <<3>>), RMul(B, X, X)), RMul(B, C.a4, RMul(B, ZZ, ZZ))))
           X3 == TLCEval(RSub(B, RMul(B, M, M), RAdd(B, S, S)))
           Y3 == TLCEval(RSub(B, RMul(B, M, RSub(B, S, X3)), RMul(B, RFromNat(B, <<8>>), RMul(B, YY, YY))))
           YZ == TLCEval(RMul(B, Y, Z))
       IN <<X3, Y3, TLCEval(RAdd(B, YZ, YZ))>>
JAddAff(C, J, P) ==       \* J + P, P affine and not infinity
  LET B == C.b X == J[1] Y == J[2] Z == J[3] IN
  IF Z = RZero(B) THEN <<P[1], P[2], ROne(B)>>
  ELSE LET ZZ == TLCEval(RMul(B, Z, Z))
           U2 == TLCEval(RMul(B, P[1], ZZ))
           S2 == TLCEval(RMul(B, P[2], RMul(B, ZZ, Z)))
           H == TLCEval(RSub(B, U2, X))
           R == TLCEval(RSub(B, S2, Y))
       IN IF H = RZero(B) THEN (IF R = RZero(B) THEN JDbl(C, J) ELSE JInf(C))
          ELSE LET HH == TLCEval(RMul(B, H, H))
                   HHH == TLCEval(RMul(B, HH, H))
                   V == TLCEval(RMul(B, X, HH))
                   X3 == TLCEval(RSub(B, RSub(B, RMul(B, R, R), HHH), RAdd(B, V, V)))
                   Y3 == TLCEval(RSub(B, RMul(B, R, RSub(B, V, X3)), RMul(B, Y, HHH)))
               IN <<X3, Y3, TLCEval(RMul(B, Z, H))>>
JIsAff(C, J, P) ==        \* does J denote the affine point P?
  LET B == C.b IN
  IF J[3] = RZero(B) THEN P = <<>>
  ELSE /\ P # <<>>
       /\ LET ZZ == TLCEval(RMul(B, J[3], J[3])) IN
          RMul(B, P[1], ZZ) = J[1] /\ RMul(B, P[2], RMul(B, ZZ, J[3])) = J[2]
RECURSIVE JMulBits(_, _, _, _)
JMulBits(C, P, e, i) ==
  IF i = BBitLen(e) THEN JInf(C)
  ELSE LET h == TLCEval(JMulBits(C, P, e, i + 1))
           s == TLCEval(JDbl(C, h))
       IN IF BBit(e, i) = 1 THEN TLCEval(JAddAff(C, s, P)) ELSE s
JToAff(C, J) == LET B == C.b IN
  IF J[3] = RZero(B) THEN <<>>
  ELSE LET zi == TLCEval(RInv(B, J[3])) z2 == TLCEval(RMul(B, zi, zi)) IN <<RMul(B, J[1], z2), RMul(B, J[2], RMul(B, z2, zi))>>
EScaleDef(C, e, P) == IF P = <<>> THEN <<>> ELSE JToAff(C, TLCEval(JMulBits(C, TLCEval(P), TLCEval(e), 0)))
EScale(C, e, P) == EScaleDef(C, e, P)       \* evaluated by Alg.java, compared with EScaleDef in AlgCheck
EIsMul(C, e, P, S) == S = EScale(C, e, P)   \* S = e P for a natural e
RECURSIVE EMul(_, _, _)
EMul(C, k, P) ==          \* for small curves: k a TLC integer
  IF k = 0 THEN <<>> ELSE EAdd(C, P, EMul(C, k - 1, P))
\* affine sum of Jacobian and affine: S = J + Q
EIsJSum(C, J, Q, S) == IF Q = <<>> THEN JIsAff(C, J, S) ELSE JIsAff(C, JAddAff(C, J, Q), S)

-----------------------------------------------------------------------------
(* Uniform view: rings and groups behind one set of operations.  The relation *)
(* forms (SIs...) state what the result must satisfy.                         *)
Id0(S) == CASE S.t = "ec" -> <<>> [] S.t = "gt" -> ROne(S.b) [] OTHER -> RZero(S)
Id1(S) == CASE S.t = "ec" -> <<>> [] S.t = "gt" -> ROne(S.b) [] OTHER -> ROne(S)
SIn(S, v) == CASE S.t = "ec" -> EOn(S, v) [] S.t = "gt" -> RIn(S.b, v) [] OTHER -> RIn(S, v)
\* c = a + b
SIsAdd(S, c, a, b) == CASE S.t = "ec" -> EIsSum(S, a, b, c)
                        [] S.t = "gt" -> c = RMul(S.b, a, b)
                        [] OTHER -> c = RAdd(S, a, b)
SIsMul(S, c, a, b) == CASE S.t = "ec" -> EIsSum(S, a, b, c)
                        [] S.t = "gt" -> c = RMul(S.b, a, b)
                        [] OTHER -> c = RMul(S, a, b)
SIsNeg(S, c, a) == CASE S.t = "ec" -> c = ENeg(S, a)
                     [] S.t = "gt" -> RIn(S.b, c) /\ RMul(S.b, a, c) = ROne(S.b)
                     [] OTHER -> c = RNeg(S, a)
SIsSub(S, c, a, b) == CASE S.t = "ec" -> EIsSum(S, a, ENeg(S, b), c)
                        [] S.t = "gt" -> RIn(S.b, c) /\ RMul(S.b, c, b) = a
                        [] OTHER -> c = RSub(S, a, b)
\* c = a / b, for b invertible (fields, groups); Euclidean quotient for polynomials over a field
SIsDiv(S, c, a, b) == CASE S.t \in {"ec", "gt"} -> SIsSub(S, c, a, b)
                        [] S.t = "poly" ->          \* a = c b + r, deg r < deg b
                             /\ RIn(S, c)
                             /\ Len(RSub(S, a, RMul(S, c, b))) < Len(b)
                        [] OTHER -> RIn(S, c) /\ RMul(S, c, b) = a
SIsInv(S, c, a) == CASE S.t \in {"ec", "gt"} -> SIsNeg(S, c, a)
                     [] OTHER -> RIn(S, c) /\ RMul(S, c, a) = ROne(S)
SIsHalf(S, c, a) == CASE S.t = "ec" -> EIsSum(S, c, c, a)
                      [] S.t = "gt" -> RMul(S.b, c, c) = a
                      [] OTHER -> RIn(S, c) /\ RAdd(S, c, c) = a
\* c = a added to itself z times (ring: a * z)
SIsScale(S, c, a, z) ==
  CASE S.t = "ec" -> EIsMul(S, z[2], IF z[1] < 0 THEN ENeg(S, a) ELSE a, c)
    [] S.t = "gt" -> IF z[1] < 0 THEN RIn(S.b, c) /\ RMul(S.b, RPow(S.b, a, z[2]), c) = ROne(S.b) ELSE c = RPow(S.b, a, z[2])
    [] OTHER -> c = RMul(S, a, RFromZ(S, z))
SIsPow(S, c, a, z) ==
  CASE S.t \in {"ec", "gt"} -> SIsScale(S, c, a, z)
    [] OTHER -> c = RPow(S, a, z[2])
\* c = a1^z1 a2^z2 (a3^z3); terms is a sequence of <<a, natural>>
RECURSIVE EMsm(_, _)
EMsm(C, terms) == IF terms = <<>> THEN <<>> ELSE EAdd(C, TLCEval(EScale(C, Head(terms)[2], Head(terms)[1])), TLCEval(EMsm(C, Tail(terms))))
RECURSIVE RMsp(_, _)
RMsp(S, terms) == IF terms = <<>> THEN ROne(S) ELSE TLCEval(RMul(S, RPow(S, Head(terms)[1], Head(terms)[2]), RMsp(S, Tail(terms))))
SIsMultiPow(S, c, terms) ==
  CASE S.t = "ec" -> c = EMsm(S, TLCEval(terms))
    [] S.t = "gt" -> c = RMsp(S.b, terms)
    [] OTHER -> c = RMsp(S, terms)
\* the image of an integer
SIsFromZ(S, c, z) == c = RFromZ(S, z)
=============================================================================
