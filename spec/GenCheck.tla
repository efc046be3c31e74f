------------------------------ MODULE GenCheck ------------------------------
(* The facts Gen rests on, by brute force: the overrides agree with their     *)
(* definitions, and for every fundamental discriminant up to a bound the      *)
(* invariants over F_p with the right trace are as many as the reduced forms. *)
EXTENDS Gen
CONSTANTS MaxP, MaxD
VARIABLES k
Init == k = 2
Next == k < MaxD /\ k' = k + 1
Overrides == (k <= MaxP /\ PrimeInt(k)) =>
  \A a \in {0, 1, k - 1, (k * 7) \div 11} : \A b \in 0..(k - 1) :
     CharSum(k, a, b) = CharSumDef(k, a, b) /\ RootSet(<<b, a, 0, 1>>, k) = RootSetDef(<<b, a, 0, 1>>, k)
ClassNumbers == (k > 4 /\ Fundamental(k)) =>
  LET h == Cardinality(Forms(k)) IN
  \A t \in PrimesFor(k, 1) : LET p == PrimeAt(k, t) IN
     p < 500 => Cardinality({j \in 1..(p - 1) : j # 1728 % p /\ Invariant(k, p, t, j)}) = h
Roots == \A n \in {IntN(k), BMul(IntN(k), IntN(k)), BAdd(BPowInt(IntN(k), 9), <<1>>)} :
  LET s == Isqrt(n) IN BCmp(BMul(s, s), n) <= 0 /\ BCmp(BMul(BAdd(s, <<1>>), BAdd(s, <<1>>)), n) > 0
=============================================================================
