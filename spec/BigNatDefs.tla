----------------------------- MODULE BigNatDefs -----------------------------
(* Natural numbers of arbitrary size, as tuples of 15-bit limbs, least        *)
(* significant limb first, no leading (trailing in the tuple) zero limb;      *)
(* zero is <<>>.  TLC's integers are 32 bits wide, so a product of two limbs  *)
(* plus carries must stay below 2^31: 15-bit limbs do.                        *)
(* These are the pure TLA+ definitions.  Module BigNat re-exports them and is *)
(* what the rest of the specification uses; BigNat.java overrides BigNat's    *)
(* operators with java.math.BigInteger for speed, and BigNatCheck.tla has TLC *)
(* compare the two.                                                           *)
EXTENDS Integers, Sequences, TLC

LB == 32768

RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN <<>>
           ELSE IF s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE FromInt(_)
FromInt(k) == IF k = 0 THEN <<>> ELSE <<k % LB>> \o FromInt(k \div LB)

\* Only for values below 2^30.
RECURSIVE ToInt(_)
ToInt(s) == IF s = <<>> THEN 0 ELSE s[1] + LB * ToInt(Tail(s))

Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == TLCEval(Limb(a, i) + Limb(b, i) + c)
       IN <<t % LB>> \o AddFrom(a, b, i + 1, n, t \div LB)
Max2(a, b) == IF a > b THEN a ELSE b
Add(a, b) == AddFrom(TLCEval(a), TLCEval(b), 1, Max2(Len(a), Len(b)), 0)

\* a - b, for a >= b.
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, n, c) ==
  IF i > n THEN <<>>
  ELSE LET t == TLCEval(Limb(a, i) - Limb(b, i) - c)
       IN IF t < 0 THEN <<t + LB>> \o SubFrom(a, b, i + 1, n, 1)
          ELSE <<t>> \o SubFrom(a, b, i + 1, n, 0)
Sub(a, b) == Norm(TLCEval(SubFrom(TLCEval(a), TLCEval(b), 1, Len(a), 0)))

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, m, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == TLCEval(a[i] * m + c) IN <<t % LB>> \o MulLimb(a, m, i + 1, t \div LB)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE Add(TLCEval(Norm(MulLimb(a, b[j], 1, 0))),
           LET r == TLCEval(MulFrom(a, b, j + 1)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
Mul(a, b) == MulFrom(TLCEval(a), TLCEval(b), 1)

RECURSIVE IntBits(_)
IntBits(k) == IF k = 0 THEN 0 ELSE 1 + IntBits(k \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + IntBits(a[Len(a)])
Bit(a, i) == (Limb(a, i \div 15 + 1) \div (2 ^ (i % 15))) % 2

Dbl(a) == Add(a, a)
\* Shift-and-subtract long division over the bits of a, from bit i down to 0.
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, d, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r2 == TLCEval(IF Bit(a, i) = 1 THEN Add(Dbl(r), <<1>>) ELSE Dbl(r))
       IN IF Cmp(r2, d) >= 0
          THEN DivStep(a, d, i - 1, TLCEval(Add(Dbl(q), <<1>>)), TLCEval(Sub(r2, d)))
          ELSE DivStep(a, d, i - 1, TLCEval(Dbl(q)), TLCEval(r2))
DivMod(a, d) == DivStep(TLCEval(a), TLCEval(d), BitLen(a) - 1, <<>>, <<>>)
Div(a, d) == DivMod(a, d)[1]
Mod(a, d) == DivMod(a, d)[2]

AddMod(a, b, n) == Mod(Add(a, b), n)
SubMod(a, b, n) == Mod(Sub(Add(a, n), b), n)     \* for b < n
MulMod(a, b, n) == Mod(Mul(a, b), n)

RECURSIVE PowModFrom(_, _, _, _)
PowModFrom(a, e, n, i) ==      \* left-to-right over bits i..0 handled inside-out
  IF i = BitLen(e) THEN Mod(<<1>>, n)
  ELSE LET h == TLCEval(PowModFrom(a, e, n, i + 1))
           s == TLCEval(MulMod(h, h, n))
       IN IF Bit(e, i) = 1 THEN MulMod(s, a, n) ELSE s
PowMod(a, e, n) == PowModFrom(Mod(a, n), e, n, 0)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = <<>> THEN a ELSE Gcd(b, TLCEval(Mod(a, b)))

RECURSIVE InvStep(_, _, _, _, _)
InvStep(r0, r1, t0, t1, n) ==
  IF r1 = <<>> THEN (IF r0 = <<1>> THEN t0 ELSE <<>>)
  ELSE LET dm == TLCEval(DivMod(r0, r1))
       IN InvStep(r1, dm[2], t1, TLCEval(SubMod(t0, MulMod(dm[1], t1, n), n)), n)
\* The inverse of a modulo n, <<>> when there is none (or n = 1).
InvMod(a, n) == IF n = <<1>> THEN <<>> ELSE InvStep(n, Mod(a, n), <<>>, Mod(<<1>>, n), n)

RECURSIVE PowInt(_, _)
PowInt(a, k) == IF k = 0 THEN <<1>> ELSE Mul(a, PowInt(a, k - 1))

\* Big-endian bytes <-> naturals.
RECURSIVE FromBytesFrom(_, _, _)
FromBytesFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE FromBytesFrom(s, i + 1, Add(Mul(acc, <<256>>), FromInt(s[i])))
FromBytes(s) == FromBytesFrom(s, 1, <<>>)
RECURSIVE ToBytes(_, _)
ToBytes(a, len) == \* the low len bytes, big-endian
  IF len = 0 THEN <<>>
  ELSE LET dm == TLCEval(DivMod(a, <<256>>))
       IN ToBytes(dm[1], len - 1) \o <<ToInt(dm[2])>>

\* Decimal digits of a, most significant first, <<0>> for zero.
RECURSIVE DigFrom(_)
DigFrom(a) == IF a = <<>> THEN <<>>
              ELSE LET dm == TLCEval(DivMod(a, <<10>>)) IN DigFrom(dm[1]) \o <<ToInt(dm[2])>>
Digits(a) == IF a = <<>> THEN <<0>> ELSE DigFrom(a)

\* Fermat/Miller-Rabin style primality for the given witnesses.
RECURSIVE Odd2(_, _)
Odd2(d, s) == IF Bit(d, 0) = 1 THEN <<d, s>> ELSE Odd2(Div(d, <<2>>), s + 1)
RECURSIVE MRSq(_, _, _)
MRSq(x, k, n) == IF k = 0 THEN FALSE
                 ELSE IF x = Sub(n, <<1>>) THEN TRUE ELSE MRSq(MulMod(x, x, n), k - 1, n)
MRWitnessOK(w, n) ==
  LET ds == Odd2(Sub(n, <<1>>), 0)
      x  == PowMod(w, ds[1], n)
  IN x = <<1>> \/ x = <<>> \/ MRSq(x, ds[2], n)
SmallPrimes == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
ProbPrime(n) ==
  IF n = <<>> \/ n = <<1>> THEN FALSE
  ELSE IF \E p \in SmallPrimes : n = <<p>> THEN TRUE
  ELSE /\ \A p \in SmallPrimes : Mod(n, <<p>>) # <<>>
       /\ \A p \in SmallPrimes : MRWitnessOK(<<p>>, n)
=============================================================================
