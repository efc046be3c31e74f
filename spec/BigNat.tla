------------------------------- MODULE BigNat -------------------------------
(* The natural-number operations the specification uses.  Each is defined as  *)
(* the pure TLA+ operator of BigNatDefs; BigNat.java overrides it for speed.  *)
EXTENDS Integers, Sequences
BigNatPure == INSTANCE BigNatDefs
BCmp(a, b) == BigNatPure!Cmp(a, b)
BAdd(a, b) == BigNatPure!Add(a, b)
BSub(a, b) == BigNatPure!Sub(a, b)
BMul(a, b) == BigNatPure!Mul(a, b)
BDivMod(a, b) == BigNatPure!DivMod(a, b)
BDiv(a, b) == BigNatPure!Div(a, b)
BMod(a, b) == BigNatPure!Mod(a, b)
BAddMod(a, b, n) == BigNatPure!AddMod(a, b, n)
BSubMod(a, b, n) == BigNatPure!SubMod(a, b, n)
BMulMod(a, b, n) == BigNatPure!MulMod(a, b, n)
BPowMod(a, e, n) == BigNatPure!PowMod(a, e, n)
BGcd(a, b) == BigNatPure!Gcd(a, b)
BInvMod(a, n) == BigNatPure!InvMod(a, n)
BBitLen(a) == BigNatPure!BitLen(a)
BBit(a, i) == BigNatPure!Bit(a, i)
BPowInt(a, k) == BigNatPure!PowInt(a, k)
BFromBytes(s) == BigNatPure!FromBytes(s)
BToBytes(a, len) == BigNatPure!ToBytes(a, len)
BDigits(a) == BigNatPure!Digits(a)
BProbPrime(n) == BigNatPure!ProbPrime(n)
BFromInt(k) == BigNatPure!FromInt(k)
BToInt(s) == BigNatPure!ToInt(s)
BNorm(s) == BigNatPure!Norm(s)
=============================================================================
