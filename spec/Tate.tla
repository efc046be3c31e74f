-------------------------------- MODULE Tate --------------------------------
(* The reduced Tate pairing by its definition: f(P) is the function with      *)
(* divisor r(P) - r(O), evaluated at the image of Q (Miller's recursion with  *)
(* every line and every vertical kept), raised to (#K - 1)/r, where K is the  *)
(* field the target group lives in.  E1 is the curve of the first argument    *)
(* over a prime field, K an extension of it.                                  *)
EXTENDS Alg

\* The prime-field element x as an element of the tower K.
RECURSIVE Emb(_, _)
Emb(K, x) == CASE K.t = "zn" -> x
               [] K.t = "quad" -> <<Emb(K.b, x), RZero(K.b)>>
               [] K.t = "pm" -> LET o == RZero(K.b) e == Emb(K.b, x) IN TSeq(K.n, LAMBDA i : IF i = 1 THEN e ELSE o)
\* x in K times the prime-field element c.
RECURSIVE KScale(_, _, _)
KScale(K, c, x) == IF K.t = "zn" THEN RMul(K, c, x) ELSE TSeq(Len(x), LAMBDA i : KScale(K.b, c, x[i]))
\* The line through V and W (the tangent if they are equal), at X = <<x, y>> in K.
\* V, W affine points of E1.
LineAt(E1, K, V, W, X) ==
  LET B == E1.b IN
  IF V[1] = W[1] /\ RAdd(B, V[2], W[2]) = RZero(B) THEN RSub(K, X[1], Emb(K, V[1]))
  ELSE LET lam == TLCEval(IF V = W THEN RMul(B, RAdd(B, RMul(B, RFromNat(B, <<3>>), RMul(B, V[1], V[1])), E1.a4), RInv(B, RAdd(B, V[2], V[2])))
                          ELSE RMul(B, RSub(B, W[2], V[2]), RInv(B, RSub(B, W[1], V[1]))))
       IN RSub(K, RSub(K, X[2], Emb(K, V[2])), KScale(K, lam, TLCEval(RSub(K, X[1], Emb(K, V[1])))))
VertAt(K, V, X) == IF V = <<>> THEN ROne(K) ELSE RSub(K, X[1], Emb(K, V[1]))
\* State <<num, den, V>>; from bit k down to bit 0 of r.
RECURSIVE Miller(_, _, _, _, _, _, _, _)
Miller(E1, K, r, P, X, k, num, st) ==      \* st = <<den, V>>
  IF k < 0 THEN <<num, st[1]>>
  ELSE LET V == st[2]
           V2 == TLCEval(IF V = <<>> THEN <<>> ELSE EAdd(E1, V, V))
           n1 == TLCEval(LET s == RMul(K, num, num) IN IF V = <<>> THEN s ELSE RMul(K, TLCEval(s), LineAt(E1, K, V, V, X)))
           d1 == TLCEval(RMul(K, TLCEval(RMul(K, st[1], st[1])), VertAt(K, V2, X)))
       IN IF BBit(r, k) = 0 THEN Miller(E1, K, r, P, X, k - 1, n1, TLCEval(<<d1, V2>>))
          ELSE LET V3 == TLCEval(EAdd(E1, V2, P))
                   n2 == TLCEval(IF V2 = <<>> THEN n1 ELSE RMul(K, n1, LineAt(E1, K, V2, P, X)))
                   d2 == TLCEval(IF V2 = <<>> THEN d1 ELSE RMul(K, d1, VertAt(K, V3, X)))
               IN Miller(E1, K, r, P, X, k - 1, n2, TLCEval(<<d2, V3>>))
\* <<numerator, denominator>> of f_{r,P} at X.
MillerAt(E1, K, r, P, X) == Miller(E1, K, r, TLCEval(P), TLCEval(X), BBitLen(r) - 2, ROne(K), TLCEval(<<ROne(K), P>>))

TateExp(K, r) == BDiv(BSub(RCard(K), <<1>>), r)
Quot(K, nd) == TLCEval(RMul(K, nd[1], RInv(K, nd[2])))
\* X is a point of E1 over K that is not a multiple of P.
Reduced(E1, K, r, P, X) == RPow(K, Quot(K, TLCEval(MillerAt(E1, K, r, P, X))), TateExp(K, r))
\* Embedding degree one: the divisor (Q+A) - (A) for any A with A, Q+A outside <P>.
Reduced1(E1, K, r, P, Q, A) ==
  RPow(K, TLCEval(RMul(K, Quot(K, TLCEval(MillerAt(E1, K, r, P, TLCEval(EAdd(E1, Q, A))))),
                          RInv(K, Quot(K, TLCEval(MillerAt(E1, K, r, P, A)))))), TateExp(K, r))

\* The image in E1(K) of a second argument Q, by pairing type.
Image(type, K, Q) ==
  LET B == K.b IN
  CASE type \in {"a", "a1"} -> << <<RNeg(B, Q[1]), RZero(B)>>, <<RZero(B), Q[2]>> >>      \* (x, y) -> (-x, iy)
    [] type \in {"d", "g"} ->                                                             \* untwist by v = K.nqr
         LET w == TLCEval(RInv(B, K.nqr)) IN << <<RMul(B, Q[1], w), RZero(B)>>, <<RZero(B), RMul(B, Q[2], TLCEval(RMul(B, w, w)))>> >>
    [] type = "f" ->                                                                      \* z^6 = K.red[1]: (z^-2 x, z^-3 y)
         LET w == TLCEval(RInv(B, K.red[1])) IN
         << TSeq(6, LAMBDA j : IF j = 5 THEN RMul(B, Q[1], w) ELSE RZero(B)), TSeq(6, LAMBDA j : IF j = 4 THEN RMul(B, Q[2], w) ELSE RZero(B)) >>
OnImage(E1, K, X) == RMul(K, X[2], X[2]) = RAdd(K, RMul(K, RAdd(K, RMul(K, X[1], X[1]), Emb(K, E1.a4)), X[1]), Emb(K, E1.a6))
\* The value the library must give.  A is only used for embedding degree one.
TateValue(type, E1, K, r, P, Q, A) ==
  IF P = <<>> \/ Q = <<>> THEN ROne(K)
  ELSE IF type = "e" THEN Reduced1(E1, K, r, P, Q, A) ELSE Reduced(E1, K, r, P, TLCEval(Image(type, K, Q)))
=============================================================================
