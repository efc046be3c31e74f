------------------------------- MODULE Params -------------------------------
(* The text form of pairing parameters: what a text says (tokens, table,      *)
(* numbers), which texts are accepted, and the text written for a parameter   *)
(* set.  Texts are sequences of character codes.                              *)
EXTENDS Ser
Ws == {32, 9, 13, 10}
Break == Ws \cup {60, 47, 62}
\* What a reader may see: up to the first NUL, at most lim characters (0: no limit).
Visible(t, lim) == LET z == {k \in 1..Len(t) : t[k] = 0}
                       n == IF z = {} THEN Len(t) ELSE (CHOOSE k \in z : \A j \in z : k <= j) - 1
                   IN SubSeq(t, 1, IF lim > 0 /\ lim < n THEN lim ELSE n)
TokStep(s, c) == CASE s.m = "com" -> [s EXCEPT !.m = IF c = 10 THEN "ws" ELSE "com"]
                   [] s.m = "ws" -> IF c \in Ws THEN s ELSE IF c = 35 THEN [s EXCEPT !.m = "com"] ELSE [s EXCEPT !.m = "word", !.cur = <<c>>]
                   [] s.m = "word" -> IF c \in Break THEN [m |-> "ws", cur |-> <<>>, out |-> Append(s.out, s.cur)]
                                      ELSE [s EXCEPT !.cur = Append(@, c)]
Words(t) == LET r == TLCEval(FoldLeft(TokStep, [m |-> "ws", cur |-> <<>>, out |-> <<>>], t))
            IN IF r.m = "word" THEN Append(r.out, r.cur) ELSE r.out
\* Keys and values alternate; a later entry for the same key wins; a last key without a value is ignored.
Table(t) == LET w == TLCEval(Words(t)) n == Len(w) \div 2
                LastAt(k) == CHOOSE j \in 1..n : w[2 * j - 1] = k /\ \A l \in (j + 1)..n : w[2 * l - 1] # k
            IN [k \in {w[2 * j - 1] : j \in 1..n} |-> w[2 * LastAt(k)]]
\* Numbers: optional sign, then 0x, 0b, 0 (octal) or decimal.
RECURSIVE NumDigits(_, _, _, _)
NumDigits(w, p, base, acc) == IF p > Len(w) THEN [ok |-> TRUE, v |-> acc]
                              ELSE IF DigVal(w[p]) >= base THEN [ok |-> FALSE, v |-> <<>>]
                              ELSE NumDigits(w, p + 1, base, TLCEval(BAdd(BMul(acc, <<base>>), BFromInt(DigVal(w[p])))))
Number(w) == LET s == IF At(w, 1) = 45 THEN 2 ELSE 1
                 r == IF At(w, s) = 48 /\ At(w, s + 1) \in {120, 88} THEN NumDigits(w, s + 2, 16, <<>>)
                      ELSE IF At(w, s) = 48 /\ At(w, s + 1) \in {98, 66} THEN NumDigits(w, s + 2, 2, <<>>)
                      ELSE IF s > Len(w) THEN [ok |-> FALSE, v |-> <<>>]
                      ELSE IF At(w, s) = 48 THEN NumDigits(w, s, 8, <<>>)
                      ELSE NumDigits(w, s, 10, <<>>)
             IN [ok |-> r.ok, z |-> IF r.v = <<>> THEN <<0, <<>> >> ELSE <<IF s = 2 THEN -1 ELSE 1, r.v>>]
MaxInt == <<32767, 32767, 1>>                                     \* 2^31 - 1
FitsInt(z) == BCmp(z[2], MaxInt) <= 0 \/ (z[1] < 0 /\ z[2] = BAdd(MaxInt, <<1>>))

Kq == <<113>>  Kr == <<114>>  Kh == <<104>>  Ka == <<97>>  Kb == <<98>>  Kn == <<110>>  Kp == <<112>>  Kl == <<108>>  Km == <<109>>  Kt == <<116>>  Kk == <<107>>
Kexp2 == <<101, 120, 112, 50>>  Kexp1 == <<101, 120, 112, 49>>  Ksign1 == <<115, 105, 103, 110, 49>>  Ksign0 == <<115, 105, 103, 110, 48>>
Knk == <<110, 107>>  Khk == <<104, 107>>  Knqr == <<110, 113, 114>>  Kbeta == <<98, 101, 116, 97>>  Kalpha0 == <<97, 108, 112, 104, 97, 48>>  Kalpha1 == <<97, 108, 112, 104, 97, 49>>  Kn2 == <<110, 50>>
Ktype == <<116, 121, 112, 101>>
Kcoeff(j) == <<99, 111, 101, 102, 102>> \o Digits(BFromInt(j), 10, <<>>)
Coeffs(n) == TSeq(n, LAMBDA j : <<Kcoeff(j - 1), "mpz">>)
Z(k) == <<k, "mpz">>  I(k) == <<k, "int">>
Ta == <<97>>  Ta1 == <<97, 49>>  Td == <<100>>  Te == <<101>>  Tf == <<102>>  Tg == <<103>>  Ti == <<105>>
Types == {Ta, Ta1, Td, Te, Tf, Tg, Ti}
IntOf(tab, k) == IF k \in DOMAIN tab /\ Number(tab[k]).ok /\ FitsInt(Number(tab[k]).z) THEN LET z == Number(tab[k]).z IN [ok |-> TRUE, v |-> z[1] * BToInt(z[2])] ELSE [ok |-> FALSE, v |-> 0]
\* The entries of a parameter set of a type, in the order they are written.
Entries(ty, tab) == CASE ty = Ta -> <<Z(Kq), Z(Kh), Z(Kr), I(Kexp2), I(Kexp1), I(Ksign1), I(Ksign0)>>
                      [] ty = Ta1 -> <<Z(Kp), Z(Kn), I(Kl)>>
                      [] ty = Td -> <<Z(Kq), Z(Kn), Z(Kh), Z(Kr), Z(Ka), Z(Kb), I(Kk), Z(Knk), Z(Khk)>> \o Coeffs(LET k == IntOf(tab, Kk) IN IF k.ok /\ k.v >= 2 THEN k.v \div 2 ELSE 0) \o <<Z(Knqr)>>
                      [] ty = Te -> <<Z(Kq), Z(Kr), Z(Kh), Z(Ka), Z(Kb), I(Kexp2), I(Kexp1), I(Ksign1), I(Ksign0)>>
                      [] ty = Tf -> <<Z(Kq), Z(Kr), Z(Kb), Z(Kbeta), Z(Kalpha0), Z(Kalpha1)>>
                      [] ty = Tg -> <<Z(Kq), Z(Kn), Z(Kh), Z(Kr), Z(Ka), Z(Kb), Z(Knk), Z(Khk)>> \o Coeffs(5) \o <<Z(Knqr)>>
                      [] ty = Ti -> <<I(Km), I(Kt), Z(Kn), Z(Kn2)>>
Accepts(tab) == /\ Ktype \in DOMAIN tab /\ tab[Ktype] \in Types
                /\ (tab[Ktype] = Td => IntOf(tab, Kk).ok /\ IntOf(tab, Kk).v >= 2)
                /\ \A e \in Range(Entries(tab[Ktype], tab)) : e[1] \in DOMAIN tab /\ LET x == TLCEval(Number(tab[e[1]])) IN x.ok /\ (e[2] = "int" => FitsInt(x.z))
Zt(z) == (IF z[1] < 0 THEN <<45>> ELSE <<>>) \o Digits(z[2], 10, <<>>)
Canon(tab) == LET ty == tab[Ktype] es == TLCEval(Entries(ty, tab)) IN
              (Ktype \o <<32>> \o ty \o <<10>>) \o Concat(LAMBDA j : es[j][1] \o <<32>> \o Zt(Number(tab[es[j][1]]).z) \o <<10>>, 1, Len(es))
NumOf(tab, k) == Number(tab[k]).z
=============================================================================
