----------------------------- MODULE CurveCheck -----------------------------
(* The chord-and-tangent law as specified is a group law, and the scalar       *)
(* multiplication the trace specification relies on is repeated addition:      *)
(* exhaustively over every point triple of every curve over the listed fields. *)
EXTENDS Alg
CONSTANTS P, Step
F == [t |-> "zn", n |-> BFromInt(P)]
N(k) == BFromInt(k % P)
VARIABLES a, b, p, q
vars == <<a, b, p, q>>
C == [t |-> "ec", b |-> F, a4 |-> N(a), a6 |-> N(b)]
Sing == (4 * a * a * a + 27 * b * b) % P = 0
Pts == {<<>>} \cup {pt \in {<<N(x), N(y)>> : x \in 0..(P-1), y \in 0..(P-1)} : EOn(C, pt)}
Init == a \in 0..(P-1) /\ b \in {k \in 0..(P-1) : k % Step = 0} /\ p = <<"?">> /\ q = <<"?">>
Next == /\ p = <<"?">> /\ ~Sing /\ p' \in Pts /\ q' \in Pts /\ UNCHANGED <<a, b>>
Law == p # <<"?">> =>
  LET s == TLCEval(EAdd(C, p, q)) IN
  /\ EOn(C, s) /\ EIsSum(C, p, q, s) /\ s = EAdd(C, q, p)
  /\ EAdd(C, p, <<>>) = p /\ EAdd(C, p, ENeg(C, p)) = <<>>
  /\ \A t \in Pts : EAdd(C, s, t) = EAdd(C, p, EAdd(C, q, t))
  /\ \A t \in Pts : EIsSum(C, p, q, t) => t = s
  /\ (q = <<>> => \A k \in 0..(2 * P) : EScale(C, BFromInt(k), p) = EMul(C, k, p) /\ EScaleDef(C, BFromInt(k), p) = EMul(C, k, p))
=============================================================================
