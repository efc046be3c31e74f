----------------------------- MODULE BuildCheck -----------------------------
(* Laws behind the curve helpers, by counting: the trace recurrence gives the  *)
(* number of points over GF(p^2) and GF(p^3), a twist in the sense of IsTwist  *)
(* has 2p + 2 - n points, the curve built from j has that invariant and only   *)
(* twist-or-isomorphic curves share it.                                        *)
EXTENDS Build
CONSTANTS P, K
F == [t |-> "zn", n |-> BFromInt(P)]
N(k) == BFromInt(k % P)
FE == {N(x) : x \in 0..(P - 1)}
NQ == CHOOSE x \in FE : ~RIsSquare(F, x) /\ x # <<>>
Cub == CHOOSE r \in FE \X FE : \A x \in FE : RAdd(F, RMul(F, RMul(F, x, x), x), RAdd(F, RMul(F, r[1], x), r[2])) # <<>>
E == IF K = 1 THEN F ELSE IF K = 2 THEN [t |-> "quad", b |-> F, nqr |-> NQ]
     ELSE [t |-> "pm", b |-> F, n |-> 3, red |-> <<RNeg(F, Cub[2]), RNeg(F, Cub[1]), <<>>>>]
EE == IF K = 1 THEN FE ELSE IF K = 2 THEN FE \X FE ELSE FE \X FE \X FE
Emb(v) == IF K = 1 THEN v ELSE IF K = 2 THEN <<v, <<>>>> ELSE <<v, <<>>, <<>>>>
Rhs(B, a, b, x) == RAdd(B, RMul(B, RAdd(B, RMul(B, x, x), a), x), b)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Sq(B, S) == {RMul(B, x, x) : x \in S}
Count(B, S, a, b) == LET Q == TLCEval(Sq(B, S)) IN
  1 + Cardinality({x \in S : Rhs(B, a, b, x) = RZero(B)}) + 2 * Cardinality({x \in S : Rhs(B, a, b, x) \in Q /\ Rhs(B, a, b, x) # RZero(B)})
VARIABLES a, b, c
vars == <<a, b, c>>
Good(x, y) == Disc(F, x, y) # <<>>
Init == a \in FE /\ b \in FE /\ Good(a, b) /\ c = <<"?">>
Next == c = <<"?">> /\ (IF K = 1 THEN c' \in {x \in FE \X FE : Good(x[1], x[2])} ELSE c' = <<>>) /\ UNCHANGED <<a, b>>
n == Count(F, FE, a, b)
Tz(k) == IF k < 0 THEN <<-1, BFromInt(- k)>> ELSE <<IF k = 0 THEN 0 ELSE 1, BFromInt(k)>>
Law == c # <<"?">> =>
  LET m == TLCEval(n) t == TLCEval(Tz(P + 1 - m)) IN
  IF K = 1 THEN
    /\ OrderN(Tz(P), t, 1) = Tz(m)
    /\ LET x == c[1] y == c[2] z == TLCEval(Count(F, FE, x, y)) IN
       /\ (a # <<>> /\ b # <<>> /\ IsTwist(F, a, b, x, y) => m + z = (2 * P) + 2)
       /\ (a # <<>> /\ b # <<>> => \A j \in FE : CurveHasJ(F, a, b, j) /\ CurveHasJ(F, x, y, j) => m = z \/ m + z = (2 * P) + 2)
    /\ Cardinality({j \in FE : CurveHasJ(F, a, b, j)}) = 1
  ELSE OrderN(Tz(P), t, K) = Tz(TLCEval(Count(E, EE, Emb(a), Emb(b))))
=============================================================================
