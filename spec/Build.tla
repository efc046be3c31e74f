------------------------------- MODULE Build -------------------------------
(* Curve construction and counting: j-invariants, twists, traces of Frobenius  *)
(* over extensions, and what trial division may report.  BuildCheck has TLC    *)
(* compare these definitions with brute-force counts.                          *)
EXTENDS Alg
\* Curves: 1728 * 4 a^3 / (4 a^3 + 27 b^2) = j, and not singular.
K4(B, a) == LET c == RMul(B, RMul(B, a, a), a) IN RMul(B, RFromZ(B, ZOfInt(4)), c)
Disc(B, a, b) == RAdd(B, K4(B, a), RMul(B, RFromZ(B, ZOfInt(27)), RMul(B, b, b)))
CurveHasJ(B, a, b, j) == Disc(B, a, b) # RZero(B) /\ RMul(B, RFromZ(B, ZOfInt(1728)), K4(B, a)) = RMul(B, j, Disc(B, a, b))
\* The quadratic twist, for a, b # 0: the same j and b' a / (a' b) not a square.
IsTwist(B, a, b, c, d) ==
  /\ Disc(B, c, d) # RZero(B) /\ RMul(B, K4(B, a), RMul(B, d, d)) = RMul(B, K4(B, c), RMul(B, b, b))
  /\ ~RIsSquare(B, RMul(B, RMul(B, a, b), RMul(B, c, d)))
Embed(B, v) == IF B.t = "quad" THEN <<v, RZero(B.b)>> ELSE TSeq(B.n, LAMBDA k : IF k = 1 THEN v ELSE RZero(B.b))
\* The trace of the n-th power of an element of norm q and trace t.
RECURSIVE TraceFrom(_, _, _, _, _)
TraceFrom(q, t, n, u, v) == IF n = 1 THEN v ELSE TraceFrom(q, t, n - 1, v, TLCEval(ZAdd(ZMul(t, v), ZNeg(ZMul(q, u)))))
TraceN(q, t, n) == TraceFrom(q, t, n, <<1, <<2>>>>, t)
OrderN(q, t, n) == ZAdd(<<1, BAdd(BPowInt(q[2], n), <<1>>)>>, ZNeg(TraceN(q, t, n)))
\* Trial division: the factors reported are the prime powers in n up to the limit, in order, then what is left as one factor.
RECURSIVE Power(_, _)
Power(p, k) == IF k = 0 THEN <<1>> ELSE TLCEval(BMul(p, Power(p, k - 1)))
RECURSIVE Left(_, _)
Left(n, fs) == IF fs = <<>> THEN n ELSE Left(TLCEval(BDiv(n, Power(fs[1][1], fs[1][2]))), Tail(fs))
TrialOk(e) ==
  LET fs == e.fs m == Len(fs) IN
  /\ \A k \in 1..m : LET p == fs[k][1] n == TLCEval(Left(e.n[2], SubSeq(fs, 1, k - 1))) q == TLCEval(Power(p, fs[k][2])) IN
       /\ p # <<1>> /\ fs[k][2] > 0 /\ BMod(n, q) = <<>> /\ BMod(BDiv(n, q), p) # <<>>
       /\ (k > 1 => BCmp(fs[k - 1][1], p) < 0)
       /\ BProbPrime(p) \/ (e.hl = 1 /\ BCmp(p, e.lim[2]) > 0 /\ BDiv(n, q) = <<1>> /\ \A t \in 2..(IF BCmp(e.lim[2], <<1000>>) > 0 THEN 1000 ELSE BToInt(e.lim[2])) : BMod(p, BFromInt(t)) # <<>>)
       /\ (e.hl = 1 /\ BProbPrime(p) /\ BCmp(p, e.lim[2]) > 0 => BDiv(n, q) = <<1>>)
  /\ e.r = (IF e.stop > 0 /\ m = e.stop THEN 1 ELSE 0) /\ (e.stop > 0 => m <= e.stop)
  /\ (e.r = 0 => Left(e.n[2], fs) = <<1>>)
=============================================================================
