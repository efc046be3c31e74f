-------------------------------- MODULE Ser --------------------------------
(* Byte forms, text forms and hashing of the structures of Alg, and the      *)
(* polynomial algorithms (division, gcd, irreducibility, roots).             *)
EXTENDS Alg, SequencesExt

-----------------------------------------------------------------------------
(* Byte strings are sequences over 0..255.                                    *)
RECURSIVE ToBE(_, _, _)
ToBE(v, n, acc) == IF n = 0 THEN acc
                   ELSE ToBE(TLCEval(BDiv(v, <<256>>)), n - 1, TLCEval(<<BToInt(BMod(v, <<256>>))>> \o acc))
RECURSIVE FromBE(_, _, _)
FromBE(s, k, acc) == IF k > Len(s) THEN acc ELSE FromBE(s, k + 1, TLCEval(BAdd(BMul(acc, <<256>>), BFromInt(s[k]))))
ZnLen(n) == (BBitLen(n) + 7) \div 8

RECURSIVE SLen(_, _), Enc(_, _), Dec(_, _)
Concat(F(_), k, n) == FlattenSeq(TSeq(n, LAMBDA j : TLCEval(F(j))))
\* Length of the byte form of v (v matters for polynomials only).
SLen(S, v) == CASE S.t = "zn" -> ZnLen(S.n)
                [] S.t = "quad" -> 2 * SLen(S.b, RZero(S.b))
                [] S.t = "pm" -> S.n * SLen(S.b, RZero(S.b))
                [] S.t = "g33" -> 3 * SLen(S.b, RZero(S.b))
                [] S.t = "g3" -> 16 * ((S.m + 64) \div 64)
                [] S.t = "poly" -> 2 + Len(v) * SLen(S.b, RZero(S.b))
                [] S.t = "ec" -> 2 * SLen(S.b, RZero(S.b))
                [] S.t = "gt" -> SLen(S.b, v)
G3Plane(v, j, w) == LET bit(k) == IF 8 * j + k + 1 <= Len(v) /\ v[8 * j + k + 1] = w THEN 2 ^ k ELSE 0
                    IN bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)
Enc(S, v) == CASE S.t = "zn" -> ToBE(v, ZnLen(S.n), <<>>)
               [] S.t = "quad" -> Enc(S.b, v[1]) \o Enc(S.b, v[2])
               [] S.t \in {"pm", "g33"} -> Concat(LAMBDA k : Enc(S.b, v[k]), 1, Len(v))
               [] S.t = "g3" -> Concat(LAMBDA k : <<G3Plane(v, k - 1, 1), G3Plane(v, k - 1, 2)>>, 1, 8 * ((S.m + 64) \div 64))
               [] S.t = "poly" -> <<Len(v) % 256, Len(v) \div 256>> \o Concat(LAMBDA k : Enc(S.b, v[k]), 1, Len(v))
               [] S.t = "ec" -> Enc(S.b, v[1]) \o Enc(S.b, v[2])      \* v not the identity
               [] S.t = "gt" -> Enc(S.b, v)
Part(s, k, w) == SubSeq(s, (k - 1) * w + 1, k * w)
Dec(S, s) == CASE S.t = "zn" -> BMod(FromBE(s, 1, <<>>), S.n)
               [] S.t \in {"quad", "pm", "g33"} ->
                    LET c == IF S.t = "quad" THEN 2 ELSE IF S.t = "pm" THEN S.n ELSE 3
                        w == SLen(S.b, RZero(S.b)) IN TSeq(c, LAMBDA k : Dec(S.b, Part(s, k, w)))
               [] S.t = "poly" -> LET c == s[1] + 256 * s[2] w == SLen(S.b, RZero(S.b)) r == SubSeq(s, 3, Len(s))
                                  IN PStrip(S.b, TSeq(c, LAMBDA k : Dec(S.b, Part(r, k, w))))
               [] S.t = "g3" -> TSeq(S.m, LAMBDA i : LET j == (i - 1) \div 8 k == (i - 1) % 8
                                                     IN ((s[2 * j + 1] \div 2 ^ k) % 2) + 2 * ((s[2 * j + 2] \div 2 ^ k) % 2))
               [] S.t = "ec" -> LET w == SLen(S.b, RZero(S.b)) P == TLCEval(<<Dec(S.b, Part(s, 1, w)), Dec(S.b, Part(s, 2, w))>>)
                                IN IF EOn(S, P) THEN P ELSE <<>>
               [] S.t = "gt" -> Dec(S.b, s)
\* b is a byte form of v: canonical, except that the identity point may be any encoding that denotes it.
IsEnc(S, b, v) == IF S.t = "ec" /\ v = <<>> THEN Len(b) = SLen(S, v) /\ Dec(S, b) = <<>> ELSE b = Enc(S, v)
CurveRhs(C, x) == RAdd(C.b, RMul(C.b, RAdd(C.b, RMul(C.b, x, x), C.a4), x), C.a6)

-----------------------------------------------------------------------------
(* Text is a sequence of character codes.                                     *)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _, _)
Digits(v, base, acc) == IF v = <<>> THEN (IF acc = <<>> THEN <<48>> ELSE acc)
                        ELSE Digits(TLCEval(BDiv(v, <<base>>)), base, TLCEval(<<Digit(BToInt(BMod(v, <<base>>)))>> \o acc))
RECURSIVE Text(_, _, _)
ListText(S, v, base) == <<91>> \o Concat(LAMBDA k : (IF k > 1 THEN <<44, 32>> ELSE <<>>) \o Text(S.b, v[k], base), 1, Len(v)) \o <<93>>
Text(S, v, base) == CASE S.t = "zn" -> Digits(v, base, <<>>)
                      [] S.t = "z" -> (IF v[1] < 0 THEN <<45>> ELSE <<>>) \o Digits(v[2], base, <<>>)
                      [] S.t \in {"quad", "pm", "poly"} -> ListText(S, v, base)
                      [] S.t = "ec" -> IF v = <<>> THEN <<79>> ELSE ListText(S, v, base)
                      [] S.t = "gt" -> Text(S.b, v, base)
IsSp(c) == c \in 9..13 \cup {32}
DigVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
RECURSIVE SkipSp(_, _)
SkipSp(s, p) == IF p <= Len(s) /\ IsSp(s[p]) THEN SkipSp(s, p + 1) ELSE p
RECURSIVE Num(_, _, _, _)
Num(s, p, base, acc) == IF p > Len(s) THEN [p |-> p, v |-> acc]
                        ELSE IF IsSp(s[p]) THEN Num(s, p + 1, base, acc)
                        ELSE IF DigVal(s[p]) >= base THEN [p |-> p, v |-> acc]
                        ELSE Num(s, p + 1, base, TLCEval(BAdd(BMul(acc, <<base>>), BFromInt(DigVal(s[p])))))
Bad(p) == [ok |-> FALSE, p |-> p, v |-> <<>>]
RECURSIVE Parse(_, _, _, _), ParseList(_, _, _, _, _, _)
ParseList(S, s, p, base, n, acc) ==       \* the k-th item and on, after '[' or ','
  LET r == TLCEval(Parse(S.b, s, p, base)) q == SkipSp(s, r.p) a == Append(acc, r.v) IN
  IF ~r.ok \/ r.p = p THEN Bad(p)            \* nothing could be read
  ELSE IF Len(a) < n THEN IF At(s, q) = 44 THEN ParseList(S, s, q + 1, base, n, a) ELSE Bad(q)
  ELSE IF At(s, q) = 93 THEN [ok |-> TRUE, p |-> q + 1, v |-> a] ELSE Bad(q)
Parse(S, s, p, base) ==
  CASE S.t = "zn" -> LET r == Num(s, p, base, <<>>) IN [ok |-> TRUE, p |-> r.p, v |-> BMod(r.v, S.n)]
    [] S.t \in {"quad", "pm"} ->
         LET q == SkipSp(s, p) IN IF At(s, q) # 91 THEN Bad(q) ELSE ParseList(S, s, q + 1, base, IF S.t = "quad" THEN 2 ELSE S.n, <<>>)
    [] S.t = "ec" ->
         LET q == SkipSp(s, p) IN
         IF At(s, q) = 79 THEN [ok |-> TRUE, p |-> q + 1, v |-> <<>>]
         ELSE IF At(s, q) # 91 THEN Bad(q)
         ELSE LET r == TLCEval(ParseList(S, s, q + 1, base, 2, <<>>)) IN IF r.ok /\ EOn(S, r.v) THEN r ELSE Bad(q)
    [] S.t = "gt" -> Parse(S.b, s, p, base)

-----------------------------------------------------------------------------
(* Formatted output: C directives %d %i %u %x %c %s %% with flags - 0 and a width, %Zd %Zx %B. *)
Pad(t, w, left, zero) ==
  LET k == w - Len(t) IN
  IF k <= 0 THEN t
  ELSE IF left THEN t \o TSeq(k, LAMBDA i : 32)
  ELSE IF zero THEN (IF t # <<>> /\ t[1] = 45 THEN <<45>> \o TSeq(k, LAMBDA i : 48) \o SubSeq(t, 2, Len(t)) ELSE TSeq(k, LAMBDA i : 48) \o t)
  ELSE TSeq(k, LAMBDA i : 32) \o t
SignedText(z, base) == (IF z[1] < 0 THEN <<45>> ELSE <<>>) \o Digits(z[2], base, <<>>)
RECURSIVE FmtOut(_, _, _, _), FmtDir(_, _, _, _, _, _, _)
\* f: format, p: position, args: remaining arguments (an element is given by its text)
FmtOut(f, p, args, acc) ==
  IF p > Len(f) THEN acc
  ELSE IF f[p] # 37 THEN FmtOut(f, p + 1, args, TLCEval(Append(acc, f[p])))
  ELSE IF f[p + 1] = 37 THEN FmtOut(f, p + 2, args, TLCEval(Append(acc, 37)))
  ELSE FmtDir(f, p + 1, args, acc, 0, FALSE, FALSE)
FmtDir(f, p, args, acc, w, left, zero) ==
  LET c == f[p] a == args[1] rest == Tail(args)
      out(t, q) == FmtOut(f, q, rest, TLCEval(acc \o t)) IN
  CASE c = 45 -> FmtDir(f, p + 1, args, acc, w, TRUE, zero)
    [] c = 48 /\ w = 0 -> FmtDir(f, p + 1, args, acc, w, left, TRUE)
    [] c \in 48..57 -> FmtDir(f, p + 1, args, acc, 10 * w + c - 48, left, zero)
    [] c = 66 -> out(a.b, p + 1)
    [] c \in {100, 105, 117} -> out(Pad(SignedText(a.n, 10), w, left, zero), p + 1)
    [] c = 120 -> out(Pad(SignedText(a.n, 16), w, left, zero), p + 1)
    [] c = 99 -> out(Pad(<<BToInt(a.n[2])>>, w, left, FALSE), p + 1)
    [] c = 115 -> out(Pad(a.b, w, left, FALSE), p + 1)
    [] c = 90 /\ f[p + 1] = 100 -> out(Pad(SignedText(a.n, 10), w, left, zero), p + 2)
    [] c = 90 /\ f[p + 1] = 120 -> out(Pad(SignedText(a.n, 16), w, left, zero), p + 2)

-----------------------------------------------------------------------------
(* Hashing.                                                                   *)
RECURSIVE Expand(_, _, _, _)
Expand(data, count, acc, ctr) ==
  LET room == count - Len(acc) IN
  IF Len(data) >= room THEN acc \o SubSeq(data, 1, room)
  ELSE LET a == TLCEval(acc \o data \o <<ctr % 256>>) IN IF Len(a) = count THEN a ELSE Expand(data, count, a, ctr + 1)
RECURSIVE ShiftBelow(_, _)
ShiftBelow(z, n) == IF BCmp(z, n) > 0 THEN ShiftBelow(TLCEval(BDiv(z, <<2>>)), n) ELSE z
HashInt(n, data) == ShiftBelow(FromBE(Expand(data, ZnLen(n), <<>>, 0), 1, <<>>), n)
RECURSIVE HashR(_, _)
HashR(S, data) ==
  CASE S.t = "zn" -> BMod(HashInt(S.n, data), S.n)
    [] S.t = "quad" -> LET k == Len(data) \div 2 IN <<HashR(S.b, SubSeq(data, 1, k)), HashR(S.b, SubSeq(data, k + 1, Len(data)))>>
    [] S.t = "pm" -> LET h == TLCEval(HashR(S.b, data)) IN TSeq(S.n, LAMBDA k : h)
RECURSIVE HashX(_, _)
HashX(C, x) == IF RIsSquare(C.b, TLCEval(CurveRhs(C, x))) THEN x
               ELSE HashX(C, TLCEval(RAdd(C.b, RMul(C.b, x, x), ROne(C.b))))
\* c is a hash of data into the curve group with cofactor h: c = h (x, +-y) for the first usable x.
\* No root is needed: with d = x^3 + a4 x + a6 the point (d x, d^2) lies on y^2 = x^3 + a4 d^2 x + a6 d^3,
\* and (X, Y) |-> (X / d, Y / d^(3/2)) carries that curve to C and that point to (x, +-y).
IsHashPt(C, c, data, h) ==
  LET B == C.b
      x == TLCEval(HashX(C, TLCEval(HashR(B, data))))
      d == TLCEval(CurveRhs(C, x))
      dd == TLCEval(RMul(B, d, d))
  IN IF d = RZero(B) THEN IF BMod(h, <<2>>) = <<>> THEN c = <<>> ELSE c = <<x, d>>
     ELSE LET T == [t |-> "ec", b |-> B, a4 |-> TLCEval(RMul(B, C.a4, dd)), a6 |-> TLCEval(RMul(B, C.a6, RMul(B, dd, d)))]
              J == TLCEval(EScale(T, h, TLCEval(<<RMul(B, d, x), dd>>)))
          IN IF J = <<>> THEN c = <<>>
             ELSE c # <<>> /\ EOn(C, c) /\ RMul(B, c[1], d) = J[1]

-----------------------------------------------------------------------------
(* Polynomials over a field B.                                                *)
PDeg(p) == Len(p) - 1
RECURSIVE PRem(_, _, _)
PRem(B, a, b) ==           \* remainder; b # <<>>
  IF Len(a) < Len(b) THEN a
  ELSE LET c == TLCEval(RMul(B, a[Len(a)], RInv(B, b[Len(b)])))
           k == Len(a) - Len(b)
       IN PRem(B, TLCEval(PStrip(B, [i \in 1..(Len(a) - 1) |-> IF i > k THEN RSub(B, a[i], RMul(B, c, b[i - k])) ELSE a[i]])), b)
RECURSIVE PGcd(_, _, _)
PGcd(B, a, b) == IF b = <<>> THEN a ELSE PGcd(B, b, TLCEval(PRem(B, a, b)))
PEval(B, p, x) == LET H[k \in 1..(Len(p) + 1)] == IF k > Len(p) THEN RZero(B) ELSE TLCEval(RAdd(B, p[k], RMul(B, x, H[k + 1]))) IN H[1]
PolyX(B) == <<RZero(B), ROne(B)>>
\* The quotient ring by a monic polynomial of degree >= 2.
Quot(B, f) == [t |-> "pm", b |-> B, n |-> PDeg(f), red |-> TLCEval([i \in 1..PDeg(f) |-> RNeg(B, f[i])])]
QX(B, f) == TLCEval([i \in 1..PDeg(f) |-> IF i = 2 THEN ROne(B) ELSE RZero(B)])
\* x^(q^k) in the quotient
RECURSIVE Frob(_, _, _, _)
Frob(Q, v, q, k) == IF k = 0 THEN v ELSE Frob(Q, TLCEval(RPow(Q, v, q)), q, k - 1)
PrimesDividing(n) == {d \in 2..n : n % d = 0 /\ \A e \in 2..(d - 1) : d % e # 0}
PIrred(B, f) ==            \* f monic, Rabin's criterion
  IF PDeg(f) <= 0 THEN FALSE ELSE IF PDeg(f) = 1 THEN TRUE
  ELSE LET n == PDeg(f) Q == Quot(B, f) X == QX(B, f) q == RCard(B) IN
       /\ Frob(Q, X, q, n) = X
       /\ \A d \in PrimesDividing(n) :
            LET g == PStrip(B, TLCEval(RSub(Q, Frob(Q, X, q, n \div d), X))) IN g # <<>> /\ Len(PGcd(B, f, g)) = 1
PHasRoot(B, f) ==          \* f monic
  IF PDeg(f) <= 0 THEN FALSE ELSE IF PDeg(f) = 1 THEN TRUE
  ELSE LET Q == Quot(B, f) X == QX(B, f) g == PStrip(B, TLCEval(RSub(Q, RPow(Q, X, RCard(B)), X)))
       IN g = <<>> \/ Len(PGcd(B, f, g)) > 1
=============================================================================
