------------------------------ MODULE AlgCheck ------------------------------
(* TLC evaluates the operators Alg.java overrides next to their definitions   *)
(* on structures of every kind, and checks the field and group laws of the    *)
(* definitions exhaustively on tiny instances.                                *)
EXTENDS Alg
Zn(n) == [t |-> "zn", n |-> BFromInt(n)]
Q7 == [t |-> "quad", b |-> Zn(7), nqr |-> <<6>>]
Q5 == [t |-> "quad", b |-> Zn(5), nqr |-> <<2>>]
C5 == [t |-> "pm", b |-> Zn(5), n |-> 3, red |-> << <<2>>, <<2>>, <<>> >>]         \* x^3 = 2x + 2
C3 == [t |-> "pm", b |-> Zn(3), n |-> 2, red |-> << <<2>>, <<>> >>]                \* x^2 = -1
T5 == [t |-> "quad", b |-> C5, nqr |-> << <<2>>, <<>>, <<>> >>]
G5 == [t |-> "g3", m |-> 5, tt |-> 4]
G9 == [t |-> "quad", b |-> G5, nqr |-> <<2, 0, 0, 0, 0>>]
G27 == [t |-> "g33", b |-> G9]
Big == [t |-> "quad", b |-> [t |-> "zn", n |-> <<32767, 32767, 31>>], nqr |-> <<3>>]   \* 2^35 - 1 (composite): ring operations only
Mul(S, v, s) == LET r == (v * 7919 + s) % 1000003 IN r
RECURSIVE Elt(_, _)
Elt(S, s) == CASE S.t = "zn" -> BMod(BMul(BFromInt(s), BFromInt(s + 3)), S.n)
               [] S.t = "quad" -> <<Elt(S.b, s), Elt(S.b, (s * 31 + 7) % 9973)>>
               [] S.t = "g33" -> TSeq(3, LAMBDA i : Elt(S.b, (s * (11 + i) + i) % 9973))
               [] S.t = "pm" -> TSeq(S.n, LAMBDA i : Elt(S.b, (s * (11 + i) + i) % 9973))
               [] S.t = "g3" -> TSeq(S.m, LAMBDA i : ((s \div (i * i)) + s) % 3)
Structs == {Q7, Q5, C5, C3, T5, G5, G9, G27, Big}
Fields == Structs \ {Big}
VARIABLES S, s, u
vars == <<S, s, u>>
Init == S \in Structs /\ s \in {1, 5, 17, 101, 888} /\ u = 0
Next == u = 0 /\ u' \in {1, 2, 9, 77} /\ UNCHANGED <<S, s>>
Agree ==
  LET a == TLCEval(Elt(S, s)) b == TLCEval(Elt(S, u * 13 + 4)) IN
  u # 0 =>
    /\ RFastMul(S, a, b) = RMulDef(S, a, b)
    /\ RFastPow(S, a, BFromInt(u * u + s)) = RPowDef(S, a, BFromInt(u * u + s))
    /\ (S \in Fields /\ a # RZero(S) => /\ RFastInv(S, a) = RInvDef(S, a)
                                        /\ RMulDef(S, a, RInvDef(S, a)) = ROne(S))
    /\ RMulDef(S, a, b) = RMulDef(S, b, a)
    /\ RMulDef(S, a, RAdd(S, b, ROne(S))) = RAdd(S, RMulDef(S, a, b), a)
    /\ RAdd(S, a, RNeg(S, a)) = RZero(S)
=============================================================================
