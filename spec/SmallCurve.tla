----------------------------- MODULE SmallCurve -----------------------------
(* Brute force over a small prime field: roots of a polynomial (coefficients  *)
(* 0..p-1, low degree first) and the sum of the quadratic characters of       *)
(* x^3 + a x + b.  SmallCurve.java overrides RootSet and CharSum for speed;   *)
(* GenCheck has TLC compare them with the definitions here.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Horner(_, _, _, _, _)
Horner(c, k, x, p, acc) == IF k = 0 THEN acc ELSE Horner(c, k - 1, x, p, ((acc * x) + c[k]) % p)
RootSetDef(c, p) == {j \in 0..(p - 1) : Horner(c, Len(c), j, p, 0) = 0}
RootSet(c, p) == RootSetDef(c, p)
Squares(p) == {(x * x) % p : x \in 1..(p - 1)}
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Cubic(p, a, b, x) == (((((x * x) % p) * x) % p) + ((a * x) % p) + b) % p
CharSumDef(p, a, b) == LET Q == TLCEval(Squares(p)) IN
                       SumF(TLCEval([x \in 1..p |-> LET v == Cubic(p, a, b, x - 1) IN IF v = 0 THEN 0 ELSE IF v \in Q THEN 1 ELSE -1]), p)
CharSum(p, a, b) == CharSumDef(p, a, b)
=============================================================================
