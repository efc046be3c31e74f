------------------------------ MODULE BuildGen ------------------------------
(* Histories of the curve-construction and counting helpers over small prime   *)
(* fields.                                                                     *)
(*   "curve":  a curve given by its coefficients, by b alone or by its         *)
(*     j-invariant, twisted Tw times, with or without a cofactor, then mapped  *)
(*     into an extension of degree Ext (1: not mapped).  The order passed to   *)
(*     the library is the one of the final curve, counted by brute force.      *)
(*   "trace":  traces of curves that exist, every degree, every aliasing.      *)
(*   "factor": numbers, limits and the factor at which the caller stops.       *)
(*   "nqr":    every non-residue as the one to build extensions with.          *)
EXTENDS SmallCurve, Json
CONSTANTS Mode, Primes, Step, Forms, Tws, Exts, Degs, Nums, Lims, Stops
VARIABLES s
Inv(p, x) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
JFac(p, j) == (j * Inv(p, (1728 - j) % p)) % p                       \* j / (1728 - j)
Sing(p, a, b) == ((((((4 * a) % p) * a) % p) * a) + ((((27 * b) % p) * b) % p)) % p = 0
Size(p, a, b) == p + 1 + CharSum(p, a, b)
Div(n) == {d \in 1..n : n % d = 0 /\ d < n}
\* the trace over the extension, by the recurrence (BuildCheck compares it with counts)
RECURSIVE Tr(_, _, _)
Tr(p, t, k) == IF k = 0 THEN 2 ELSE IF k = 1 THEN t ELSE (t * Tr(p, t, k - 1)) - (p * Tr(p, t, k - 2))
RECURSIVE Pw(_, _)
Pw(p, k) == IF k = 0 THEN 1 ELSE p * Pw(p, k - 1)
SizeExt(p, n, k) == Pw(p, k) + 1 - Tr(p, p + 1 - n, k)
Args(p, f) == IF f = "ab" THEN {<<a, b>> \in (0..(p - 1)) \X (0..(p - 1)) : ((a * 7) + b) % Step = 0}
              ELSE IF f = "b" THEN {<<0, b>> : b \in 1..(p - 1)}
              ELSE {<<(3 * JFac(p, j)) % p, (2 * JFac(p, j)) % p, j>> : j \in {x \in 1..(p - 1) : x # 1728 % p}}
InitCurve == \E p \in Primes, f \in Forms, tw \in Tws, k \in Exts : \E v \in Args(p, f) :
  /\ ~Sing(p, v[1], v[2]) /\ (tw > 0 => v[1] # 0 /\ v[2] # 0)
  /\ LET n == Size(p, v[1], v[2]) m == IF tw % 2 = 1 THEN (2 * p) + 2 - n ELSE n IN
     \E c \in {0} \cup (IF Div(m) = {1} THEN {} ELSE {CHOOSE d \in Div(m) : d > 1 /\ \A e \in Div(m) : e > 1 => d <= e}) :
       s = <<p, f, IF f = "j" THEN v[3] ELSE v[1], v[2], m, c, tw, k, SizeExt(p, m, k)>>
InitTrace == \E p \in Primes : \E t \in TLCEval({- CharSum(p, v[1], v[2]) : v \in {x \in Args(p, "ab") : ~Sing(p, x[1], x[2])}}), n \in Degs, al \in 0..2 : s = <<p, t, n, al>>
InitFactor == \E n \in Nums, l \in Lims, k \in Stops : s = <<n, l, k>>
InitNqr == \E p \in Primes, how \in {"free", "set", "reset"}, again \in 0..1 : \E v \in IF how = "free" THEN {0} ELSE (1..(p - 1)) \ Squares(p) : s = <<p, how, v, again>>
Init == /\ IF Mode = "curve" THEN InitCurve ELSE IF Mode = "trace" THEN InitTrace ELSE IF Mode = "factor" THEN InitFactor ELSE InitNqr
Next == Len(s) > 0 /\ s' = <<>> /\ PrintT("BG " \o ToJson(s))
=============================================================================
