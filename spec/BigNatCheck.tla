---------------------------- MODULE BigNatCheck ----------------------------
(* TLC evaluates every overridden operator of BigNat (and SmallPoly) next to  *)
(* its pure TLA+ definition and requires the same value.                      *)
EXTENDS BigNat, SmallPoly, TLC, FiniteSets
Small == {BFromInt(k) : k \in (0..6) \cup {31, 32767, 32768, 65537}}
Large == {<<32767, 32767, 32767>>, <<0, 0, 0, 1>>, <<12345, 999, 31000, 7, 16384>>}
S == Small \cup Large
VARIABLES a, b
Init == a \in S /\ b = <<>>
Next == b = <<>> /\ b' \in S \ {<<>>} /\ UNCHANGED a
P == INSTANCE BigNatDefs
G3A == {<<0,0,0,0,1>>, <<1,2,0,1,2>>, <<2,2,2,2,2>>, <<0,1,0,2,0>>, <<0,0,0,0,0>>}
Agree ==
  /\ BAdd(a, b) = P!Add(a, b) /\ BMul(a, b) = P!Mul(a, b) /\ BCmp(a, b) = P!Cmp(a, b)
  /\ (BCmp(a, b) >= 0 => BSub(a, b) = P!Sub(a, b))
  /\ (b # <<>> => /\ BDivMod(a, b) = P!DivMod(a, b) /\ BDiv(a, b) = P!Div(a, b) /\ BMod(a, b) = P!Mod(a, b)
                  /\ BAddMod(a, b, b) = P!AddMod(a, b, b)
                  /\ BMulMod(a, a, b) = P!MulMod(a, a, b)
                  /\ BSubMod(a, BMod(a, b), b) = P!SubMod(a, P!Mod(a, b), b)
                  /\ BInvMod(a, b) = P!InvMod(a, b))
  /\ BGcd(a, b) = P!Gcd(a, b)
  /\ (b = <<>> =>
       /\ BBitLen(a) = P!BitLen(a) /\ \A i \in {0, 1, 7, 14, 15, 16, 29, 30, 44, 45, 60, 80} : BBit(a, i) = P!Bit(a, i)
       /\ BToBytes(a, 5) = P!ToBytes(a, 5) /\ BDigits(a) = P!Digits(a)
       /\ BFromBytes(BToBytes(a, 11)) = a /\ P!FromBytes(P!ToBytes(a, 11)) = a
       /\ BNorm(a) = a
       /\ BPowInt(a, 3) = P!PowInt(a, 3)
       /\ (a \in Small => BProbPrime(a) = P!ProbPrime(a)))
  /\ (Len(b) = 1 /\ a # <<>> => BPowMod(b, BFromInt(77), a) = P!PowMod(b, P!FromInt(77), a))
  /\ (a = <<>> /\ b = <<>> => \A x \in G3A, y \in G3A : G3Mul(x, y, 5, 1) = G3MulDef(x, y, 5, 1))
=============================================================================
