----------------------------- MODULE PolyCheck ------------------------------
(* The polynomial algorithms of Ser against brute force, for every monic      *)
(* polynomial of degree up to D over a prime field; also the generator of     *)
(* those polynomials for the conformance runs.                                *)
EXTENDS Ser, Json
CONSTANTS P, D, Emitting
B == [t |-> "zn", n |-> BFromInt(P)]
R == [t |-> "poly", b |-> B]
VARIABLES f
vars == <<f>>
Cs == 0..(P - 1)
El(c) == [i \in 1..Len(c) |-> BFromInt(c[i])]
Init == f = <<>>
Next == Len(f) < D /\ \E c \in Cs : f' = Append(f, c) /\ (Emitting => PrintT("PL " \o ToJson(f')))
Monics(d) == {Append(g, 1) : g \in [1..d -> Cs]}
M == TLCEval(El(Append(f, 1)))
Brute == \A d \in 1..(Len(f) \div 2) : \A g \in Monics(d) : PRem(B, M, El(g)) # <<>>
Agree == f # <<>> =>
  /\ PIrred(B, M) = Brute
  /\ PHasRoot(B, M) = (\E x \in Cs : PEval(B, M, BFromInt(x)) = <<>>)
  /\ \A g \in Monics(1) : LET h == El(g) p == TLCEval(RMul(R, M, h)) IN
        PRem(B, p, h) = <<>> /\ ~PIrred(B, p) /\ PHasRoot(B, p) /\ Len(PGcd(B, p, h)) = 2
=============================================================================
