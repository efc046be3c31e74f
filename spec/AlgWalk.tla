------------------------------- MODULE AlgWalk ------------------------------
(* Long pseudo-random behaviours of the register machine: every step picks an *)
(* operation, a destination and operands among the registers (aliasing        *)
(* included) and a scalar.  The walk carries an abstract value per register   *)
(* ("0", "1", or "?") so that it can keep a balance: when too few registers   *)
(* hold a generic value one is regenerated.  Choices come from a linear       *)
(* congruential generator in the state, so a seed reproduces a run.           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, FiniteSets
CONSTANTS Regs, Un, Bin, Sca, Nul, Scalars, Depth, Walks, Seed
VARIABLES w, n, abs, hist, x
vars == <<w, n, abs, hist, x>>
Ops == SetToSeq(Un \cup Bin \cup Sca) \o SetToSeq(Bin) \o SetToSeq(Un \cup Bin) \o SetToSeq(Nul)
RegS == SetToSeq(Regs)
ScaS == SetToSeq(Scalars)
NulS == SetToSeq(Nul)
L(v) == (v * 3877 + 29573) % 139968
Pick(s, v) == s[1 + ((v \div 7) % Len(s))]
Init == /\ w \in 1..Walks /\ n = 0 /\ abs = [r \in Regs |-> "0"] /\ hist = <<>>
        /\ x = L(L(L((Seed * 977 + w * 7919) % 139968)))
AbsOf(op, a, b) ==
  CASE op = "set0" -> "0" [] op = "set1" -> "1"
    [] op = "set" -> abs[a]
    [] op \in {"neg", "dbl", "halve"} -> IF abs[a] = "0" THEN "0" ELSE "?"
    [] op = "sq" -> abs[a]
    [] op = "sub" -> IF a = b THEN "0" ELSE IF abs[b] = "0" THEN abs[a] ELSE "?"
    [] op = "add" -> IF abs[a] = "0" THEN abs[b] ELSE IF abs[b] = "0" THEN abs[a] ELSE "?"
    [] op = "mul" -> IF "0" \in {abs[a], abs[b]} THEN "0" ELSE IF abs[a] = "1" THEN abs[b] ELSE IF abs[b] = "1" THEN abs[a] ELSE "?"
    [] op = "div" -> IF abs[b] = "0" THEN "?" ELSE IF a = b THEN "1" ELSE "?"
    [] OTHER -> "?"
Next ==
  /\ n < Depth
  /\ LET x1 == L(x) x2 == L(x1) x3 == L(x2) x4 == L(x3) x5 == L(x4)
         flat == {r \in Regs : abs[r] # "?"}
         gen == Cardinality(flat) * 4 > Cardinality(Regs) * 3
         op == IF gen THEN "gen" ELSE Pick(Ops, x1)
         c == IF gen THEN Pick(SetToSeq(flat), x2) ELSE Pick(RegS, x2)
         a == Pick(RegS, x3)
         b == Pick(RegS, x4)
     IN /\ hist' = Append(hist, <<op, c, a, b, Pick(ScaS, x5)>>)
        /\ abs' = [abs EXCEPT ![c] = AbsOf(op, a, b)]
        /\ x' = x5
        /\ (n + 1 = Depth => PrintT("WK " \o ToJson(hist')))
  /\ n' = n + 1 /\ UNCHANGED w
=============================================================================
