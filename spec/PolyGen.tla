------------------------------- MODULE PolyGen ------------------------------
(* Shape-level life of polynomial registers: coefficients set, zeroed and     *)
(* overwritten above, at and below the leading term, rebuilt through the ring *)
(* operations that cancel leading terms, scaled, embedded and compared.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Regs, Depth, Acts, Degs, NoEmit
VARIABLES n, hist, top
vars == <<n, hist, top>>
\* top[r]: an upper bound on the degree + 1 of register r, which steers where coefficients are touched
Init == n = 0 /\ hist = <<>> /\ top = [r \in Regs |-> 0]
Emit(h) == NoEmit \/ PrintT("PY " \o ToJson(h))
Do(a, t) == hist' = Append(hist, a) /\ top' = t /\ n' = n + 1 /\ (n + 1 = Depth => Emit(hist'))
Max(x, y) == IF x > y THEN x ELSE y
Coef(r, o, d) == LET k == CASE d = "lead" -> Max(top[r] - 1, 0) [] d = "over" -> top[r] + 1 [] d = "low" -> 0 [] OTHER -> Max(top[r] - 2, 0)
                 IN Do(<<o, r, "", "", k>>, [top EXCEPT ![r] = Max(@, k + 1)])
Op2(o, c, a, b) == Do(<<o, c, a, b, 0>>, [top EXCEPT ![c] = IF o = "mul" THEN top[a] + top[b] ELSE Max(top[a], top[b])])
Op1(o, c, a) == Do(<<o, c, a, "", 0>>, [top EXCEPT ![c] = IF o = "sq" THEN 2 * top[a] ELSE Max(top[a], 1)])
Next == /\ n < Depth
        /\ \/ \E r \in Regs, o \in {"setcoeff", "setcoeffz", "setcoeff0", "setcoeff1"} \cap Acts, d \in Degs : Coef(r, o, d)
           \/ \E c, a, b \in Regs, o \in {"add", "sub", "mul"} \cap Acts : Op2(o, c, a, b)
           \/ \E c, a \in Regs, o \in {"neg", "dbl", "sq", "set", "constmul", "constmul0", "mulsi", "mulmpz", "rtstr", "rt"} \cap Acts : Op1(o, c, a)
           \/ \E c \in Regs, o \in {"set0", "set1", "setx", "embed", "embed0", "setsi", "rndmonic"} \cap Acts : Do(<<o, c, "", "", 0>>, [top EXCEPT ![c] = 2])
=============================================================================
