----------------------------- MODULE SmallPoly -----------------------------
(* Multiplication in GF(3)[x]/(x^m + x^t + 2); elements are tuples of m       *)
(* coefficients 0..2, constant term first.  SmallPoly.java overrides G3Mul    *)
(* for speed; SmallPolyCheck has TLC compare it with G3MulDef.                *)
EXTENDS Integers, Sequences, TLC
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* coefficient of x^k (k = 0 .. 2m-2) in the plain product
Conv(a, b, m) ==
  TLCEval([k \in 1..(2 * m - 1) |->
     SumTo(TLCEval([i \in 1..m |-> IF k - i + 1 \in 1..m THEN a[i] * b[k - i + 1] ELSE 0]), m) % 3])
\* x^m = -x^t - 2 = 2 x^t + 1 (mod 3): fold coefficient k (0-based, k >= m) down.
RECURSIVE Fold(_, _, _, _)
Fold(c, k, m, t) ==
  IF k < m THEN SubSeq(c, 1, m)
  ELSE LET v == c[k + 1]
       IN Fold(TLCEval([c EXCEPT ![k + 1] = 0, ![k - m + 1] = (@ + v) % 3, ![k - m + t + 1] = (@ + 2 * v) % 3]), k - 1, m, t)
G3MulDef(a, b, m, t) == Fold(Conv(a, b, m), 2 * m - 2, m, t)
G3Mul(a, b, m, t) == G3MulDef(a, b, m, t)
=============================================================================
