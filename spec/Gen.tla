-------------------------------- MODULE Gen --------------------------------
(* What generated parameters are: the equations of each pairing type, what a  *)
(* CM search may report, and class polynomials.                               *)
EXTENDS Params, SmallCurve
NatOf(z) == IF z[1] < 0 THEN <<>> ELSE z[2]
ZN(n) == IF n = <<>> THEN <<0, <<>> >> ELSE <<1, n>>
ZSub(a, b) == ZAdd(a, ZNeg(b))
Two(k) == BPowInt(<<2>>, k)
Bits(n) == BBitLen(n)
IntN(k) == BFromInt(k)
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, x) == LET y == TLCEval(BDiv(BAdd(x, BDiv(n, x)), <<2>>)) IN IF BCmp(y, x) >= 0 THEN x ELSE SqrtFrom(n, y)
Isqrt(n) == IF n = <<>> THEN <<>> ELSE SqrtFrom(n, Two((Bits(n) + 1) \div 2))
IsSquareN(n) == LET s == TLCEval(Isqrt(n)) IN BMul(s, s) = n
Prime(n) == BProbPrime(n)
FP(q) == [t |-> "zn", n |-> q]
\* Every power of q below the k-th is different from 1 modulo r, the k-th is 1.
Embedding(q, r, k) == /\ BPowMod(q, IntN(k), r) = <<1>>
                      /\ \A j \in 1..(k - 1) : BPowMod(q, IntN(j), r) # <<1>>
\* |#E - (q + 1)| <= 2 sqrt q
Hasse(q, n) == LET t == TLCEval(ZSub(ZN(BAdd(q, <<1>>)), ZN(n))) IN BCmp(BMul(t[2], t[2]), BMul(<<4>>, q)) <= 0

\* The point above x of y^2 = x^3 + a x + b over B, or of its quadratic twist: with v = x^3 + a x + b
\* it is (v x, v^2) on Y^2 = X^3 + a v^2 X + b v^3.  n is the number of points of the curve, card that of B.
Above(B, card, a, b, n, x, mult) ==
  LET v == TLCEval(RAdd(B, RMul(B, RAdd(B, RMul(B, x, x), a), x), b)) IN
  IF v = RZero(B) THEN TRUE
  ELSE LET v2 == TLCEval(RMul(B, v, v))
           E == TLCEval([t |-> "ec", b |-> B, a4 |-> RMul(B, a, v2), a6 |-> RMul(B, b, RMul(B, v2, v))])
           sq == RPow(B, v, BDiv(BSub(card, <<1>>), <<2>>)) = ROne(B)
           N == TLCEval(IF sq THEN mult ELSE BSub(BMul(<<2>>, BAdd(card, <<1>>)), n))
       IN EScale(E, N, TLCEval(<<RMul(B, v, x), v2>>)) = <<>>
\* Points above several x are killed by the stated number of points.
CurveHas(B, card, a, b, n, mult) == \A k \in 2..5 : Above(B, card, a, b, n, TLCEval(RAdd(B, RFromNat(B, <<k>>), IF B.t = "zn" THEN RZero(B) ELSE <<RZero(B.b), ROne(B.b)>>)), mult)

NonSquare(B, card, x) == x # RZero(B) /\ RPow(B, x, BDiv(BSub(card, <<1>>), <<2>>)) # ROne(B)
NonCube(B, card, x) == x # RZero(B) /\ RPow(B, x, BDiv(BSub(card, <<1>>), <<3>>)) # ROne(B)

\* f = x^d + ... over F_q, d = 1 or an odd prime, is irreducible.
RECURSIVE FrobQ(_, _, _, _)
FrobQ(K, x, q, k) == IF k = 0 THEN x ELSE FrobQ(K, TLCEval(RPow(K, x, q)), q, k - 1)
Irreducible(q, cs) == LET d == Len(cs) B == FP(q) IN
  d = 1 \/ LET K == TLCEval([t |-> "pm", b |-> B, n |-> d, red |-> TSeq(d, LAMBDA j : BSubMod(<<>>, cs[j], q))])
               x == TSeq(d, LAMBDA j : IF j = 2 THEN <<1>> ELSE <<>>)
               x1 == TLCEval(RPow(K, x, q))
           IN x1 # x /\ FrobQ(K, x1, q, d - 1) = x

\* Numbers of points over extensions: s_k = alpha^k + conj(alpha)^k.
RECURSIVE TraceK(_, _, _, _, _)
TraceK(t, q, k, s0, s1) == IF k = 0 THEN s0 ELSE TraceK(t, q, k - 1, s1, TLCEval(ZSub(ZMul(t, s1), ZMul(ZN(q), s0))))
PointsK(q, n, k) == LET t == TLCEval(ZSub(ZN(BAdd(q, <<1>>)), ZN(n)))
                    IN ZSub(ZN(BAdd(BPowInt(q, k), <<1>>)), TraceK(t, q, k, <<1, <<2>> >>, t))

Solinas(tab, r) == LET e2 == IntOf(tab, Kexp2).v e1 == IntOf(tab, Kexp1).v s1 == IntOf(tab, Ksign1).v s0 == IntOf(tab, Ksign0).v IN
  /\ s1 \in {1, -1} /\ s0 \in {1, -1} /\ 0 < e1 /\ e1 < e2
  /\ ZN(r) = ZAdd(ZAdd(ZN(Two(e2)), <<s1, Two(e1)>>), <<s0, <<1>> >>)
\* r has rb bits (or is the one number of that shape that falls just short).
SizeR(r, rb) == Bits(r) = rb \/ BAdd(r, <<1>>) = Two(rb - 1)
MaxI(a, b) == IF a > b THEN a ELSE b
V(tab, k) == NatOf(NumOf(tab, k))

GenA(tab, rb, qb) == LET q == V(tab, Kq) r == V(tab, Kr) h == V(tab, Kh) IN
  /\ Prime(q) /\ Prime(r) /\ BAdd(q, <<1>>) = BMul(h, r) /\ BMod(h, <<12>>) = <<>> /\ Solinas(tab, r)
  /\ SizeR(r, rb) /\ Bits(q) <= MaxI(qb + 1, rb + 7) /\ Bits(q) >= MaxI(rb + 3, qb - 24)
GenA1(tab, n) == LET p == V(tab, Kp) l == IntOf(tab, Kl).v IN
  /\ V(tab, Kn) = n /\ Prime(p) /\ l > 0 /\ l % 4 = 0 /\ BAdd(p, <<1>>) = BMul(n, IntN(l))
GenE(tab, rb, qb) == LET q == V(tab, Kq) r == V(tab, Kr) h == V(tab, Kh) a == V(tab, Ka) b == V(tab, Kb) n == TLCEval(BMul(h, BMul(r, r))) IN
  /\ Prime(q) /\ Prime(r) /\ q = BAdd(n, <<1>>) /\ BMod(h, <<3>>) = <<>> /\ IsSquareN(BDiv(h, <<3>>)) /\ Solinas(tab, r)
  /\ SizeR(r, rb) /\ Bits(q) <= MaxI(qb + 2, 2 * rb + 10) /\ Bits(q) >= MaxI(2 * rb, qb - 40)
  /\ BCmp(a, q) < 0 /\ BCmp(b, q) < 0
  /\ CurveHas(FP(q), q, a, b, n, TLCEval(BMul(h, r)))            \* h r: all of the r-torsion is rational
GenF(tab, bits) == LET q == V(tab, Kq) r == V(tab, Kr) b == V(tab, Kb) be == V(tab, Kbeta) a0 == V(tab, Kalpha0) a1 == V(tab, Kalpha1)
                       t1 == TLCEval(ZSub(ZN(q), ZN(r)))          \* trace - 1 = 6 x^2
                       x == TLCEval(Isqrt(BDiv(t1[2], <<6>>))) x2 == TLCEval(BMul(x, x)) x3 == TLCEval(BMul(x2, x))
                       even == TLCEval(BAdd(BAdd(BMul(<<36>>, BMul(x2, x2)), BMul(<<24>>, x2)), <<1>>)) odd == TLCEval(BAdd(BMul(<<36>>, x3), BMul(<<6>>, x)))
                       K2 == TLCEval([t |-> "quad", b |-> FP(q), nqr |-> be]) qq == TLCEval(BMul(q, q))
                       al == <<a0, a1>> nal == TLCEval(RNeg(K2, al))
                       b2 == TLCEval(RMul(K2, nal, <<b, <<>> >>)) n2 == TLCEval(BMul(r, BSub(BMul(<<2>>, q), r)))
  IN
  /\ Prime(q) /\ Prime(r) /\ t1[1] > 0 /\ BMul(<<6>>, x2) = t1[2] /\ (q = BAdd(even, odd) \/ q = BSub(even, odd))
  /\ Bits(q) >= bits - 4 /\ Bits(q) <= bits + 4 /\ Bits(r) >= bits - 4 /\ Bits(r) <= bits + 4
  /\ \A z \in {b, be, a0, a1} : BCmp(z, q) < 0
  /\ CurveHas(FP(q), q, <<>>, b, r, r)
  /\ NonSquare(FP(q), q, be) /\ NonSquare(K2, qq, nal) /\ NonCube(K2, qq, nal)
  /\ CurveHas(K2, qq, RZero(K2), b2, n2, n2)                      \* the sextic twist with a subgroup of order r
GenCM(tab, cm, k) == LET q == V(tab, Kq) r == V(tab, Kr) h == V(tab, Kh) n == V(tab, Kn) a == V(tab, Ka) b == V(tab, Kb) d == k \div 2
                         cs == TSeq(d, LAMBDA j : V(tab, Kcoeff(j - 1))) IN
  /\ <<q, n, h, r>> = <<cm.q[2], cm.n[2], cm.h[2], cm.r[2]>>
  /\ tab[Ktype] = Td => IntOf(tab, Kk).v = k
  /\ \A z \in {a, b, V(tab, Knqr)} \cup Range(cs) : BCmp(z, q) < 0
  /\ BMul(<<4>>, BMul(a, BMul(a, a))) # <<>> \/ b # <<>>
  /\ (Bits(r) > 24 => CurveHas(FP(q), q, a, b, n, n))          \* the generator tries one random point: only tiny groups let a wrong curve pass
  /\ ZN(V(tab, Knk)) = PointsK(q, n, k) /\ BMul(V(tab, Khk), BMul(r, r)) = V(tab, Knk)
  /\ Irreducible(q, cs) /\ NonSquare(FP(q), q, V(tab, Knqr))
\* x^m + x^t + 2 over GF(3): the powers x^(3^j), and coprimality with x^(3^(m/p)) - x.
G3One(m) == TSeq(m, LAMBDA j : IF j = 2 THEN 1 ELSE 0)
RECURSIVE G3Frob(_, _, _, _)
G3Frob(x, m, t, k) == IF k = 0 THEN x ELSE G3Frob(TLCEval(G3Mul(TLCEval(G3Mul(x, x, m, t)), x, m, t)), m, t, k - 1)
PrimeInt(p) == p > 1 /\ \A d \in 2..(p - 1) : d * d > p \/ p % d # 0
RECURSIVE Strip3(_)
Strip3(p) == IF p = <<>> THEN p ELSE IF p[Len(p)] = 0 THEN Strip3(TLCEval(SubSeq(p, 1, Len(p) - 1))) ELSE p
RECURSIVE Rem3(_, _)
Rem3(a, b) == IF Len(a) < Len(b) THEN a
              ELSE LET c == (a[Len(a)] * b[Len(b)]) % 3 s == Len(a) - Len(b) IN
                   Rem3(TLCEval(Strip3(TLCEval([j \in 1..Len(a) |-> IF j > s THEN (a[j] + 3 - ((c * b[j - s]) % 3)) % 3 ELSE a[j]]))), b)
RECURSIVE Gcd3(_, _)
Gcd3(a, b) == IF b = <<>> THEN a ELSE Gcd3(b, TLCEval(Rem3(a, b)))
Irred3(m, t) == LET x == G3One(m) f == TSeq(m + 1, LAMBDA j : IF j = 1 THEN 2 ELSE IF j = m + 1 \/ j = t + 1 THEN 1 ELSE 0) IN
  /\ 0 < t /\ t < m
  /\ G3Frob(x, m, t, m) = x
  /\ \A p \in {p \in 2..m : m % p = 0 /\ PrimeInt(p)} :
       LET y == TLCEval(G3Frob(x, m, t, m \div p)) IN Len(Gcd3(f, TLCEval(Strip3(TSeq(m, LAMBDA j : (y[j] + 3 - x[j]) % 3))))) = 1
GenI(tab, size) == LET m == IntOf(tab, Km).v t == IntOf(tab, Kt).v n == V(tab, Kn) n2 == V(tab, Kn2)
                       h == TLCEval(BPowInt(<<3>>, (m + 1) \div 2)) q1 == TLCEval(BAdd(BPowInt(<<3>>, m), <<1>>)) IN
  /\ m % 2 = 1 /\ m % 3 # 0
  /\ BMul(n, n2) = (IF m % 12 \in {1, 11} THEN BAdd(q1, h) ELSE BSub(q1, h))       \* points of y^2 = x^3 - x + 1
  /\ Prime(n) /\ Bits(n) > size
  /\ Irred3(m, t)

\* A reported CM triple for discriminant D.
CmOk(e) == LET q == e.q[2] n == e.n[2] h == e.h[2] r == e.r[2] t == TLCEval(ZSub(ZN(BAdd(q, <<1>>)), ZN(n))) dv == TLCEval(ZSub(ZN(BMul(<<4>>, q)), ZN(BMul(t[2], t[2])))) IN
  /\ e.D = e.reqD /\ e.k = e.kind /\ e.after = 0
  /\ e.q[1] = 1 /\ e.n[1] = 1 /\ e.h[1] = 1 /\ e.r[1] = 1
  /\ Prime(q) /\ Prime(r) /\ n = BMul(h, r) /\ Bits(r) <= e.lim
  /\ dv[1] > 0 /\ BMod(dv[2], IntN(e.D)) = <<>> /\ IsSquareN(BDiv(dv[2], IntN(e.D)))          \* 4q - t^2 = D V^2
  /\ (Bits(r) > 4 => Embedding(q, r, e.k))

\* Class polynomials.  Reduced primitive forms of discriminant -D.
RECURSIVE GcdInt(_, _)
GcdInt(a, b) == IF b = 0 THEN a ELSE GcdInt(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Forms(D) == LET lim == CHOOSE s \in 0..1000 : s * s <= D \div 3 /\ (s + 1) * (s + 1) > D \div 3 IN
            UNION {{<<a, b>> : b \in {b \in (-a)..a : /\ AbsI(b) % 2 = D % 2 /\ (b * b + D) % (4 * a) = 0
                                                      /\ LET c == (b * b + D) \div (4 * a) IN c >= a /\ (b < 0 => AbsI(b) # a /\ a # c) /\ GcdInt(GcdInt(a, AbsI(b)), c) = 1}} : a \in 1..lim}
SquareFree(n) == \A d \in 2..n : d * d > n \/ n % (d * d) # 0
Fundamental(D) == (D % 4 = 3 /\ SquareFree(D)) \/ (D % 4 = 0 /\ (D \div 4) % 4 \in {1, 2} /\ SquareFree(D \div 4))
PowI(a, e, p) == BToInt(BPowMod(IntN(a), IntN(e), IntN(p)))
\* A curve with invariant j (j # 0, 1728) over F_p is y^2 = x^3 + 3c x + 2c; its trace up to sign, by counting.
InvC(p, j) == (j * PowI((1728 + (p * 1728) - j) % p, p - 2, p)) % p
TraceOf(p, j) == LET c == InvC(p, j) IN AbsI(CharSum(p, (3 * c) % p, (2 * c) % p))
\* Primes p with 4p = t^2 + v^2 D, v = 1 (v = 2 if D = 7 mod 8, where v = 1 gives even numbers): the invariants over
\* F_p of the curves of trace t - for v = 2, of those with all their 2-torsion over F_p - are the roots of the polynomial.
Cond(D) == IF D % 8 = 7 THEN 4 ELSE 1
PrimeAt(D, t) == (t * t + (Cond(D) * D)) \div 4
PrimesFor(D, many) == LET S == {t \in 1..800 : (t * t + (Cond(D) * D)) % 4 = 0 /\ PrimeAt(D, t) > 5 /\ PrimeAt(D, t) < 32000 /\ PrimeInt(PrimeAt(D, t))}
                      IN {t \in S : Cardinality({u \in S : u < t}) < many}
TwoTorsion(p, j) == LET c == InvC(p, j) IN Cardinality(RootSet(<<(2 * c) % p, (3 * c) % p, 0, 1>>, p)) = 3
Invariant(D, p, t, j) == j # 0 /\ j # 1728 % p /\ TraceOf(p, j) = t /\ (D % 8 = 7 => TwoTorsion(p, j))
RootsOk(D, c, h, t) == LET p == PrimeAt(D, t)
                           cm == TSeq(Len(c), LAMBDA j : LET r == BToInt(BMod(c[j][2], IntN(p))) IN IF c[j][1] < 0 THEN (p - r) % p ELSE r)
                           R == TLCEval(RootSet(cm, p)) IN
                       Cardinality(R) = h /\ \A j \in R : Invariant(D, p, t, j)
HilbertOk(e, many) == LET D == e.D c == e.c h == TLCEval(Cardinality(Forms(D))) IN
  /\ Len(c) = h + 1 /\ c[h + 1] = <<1, <<1>> >>
  /\ IF D = 3 THEN c[1] = <<0, <<>> >> ELSE IF D = 4 THEN c[1] = <<-1, <<1728>> >>
     ELSE LET P == TLCEval(PrimesFor(D, many)) IN P # {} /\ \A t \in P : RootsOk(D, c, h, t)
=============================================================================
