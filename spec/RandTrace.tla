----------------------------- MODULE RandTrace ------------------------------
(* The register machine with its source of randomness.  The state adds the    *)
(* source in force (src), the requests made of it since it was installed      *)
(* (hist) and the answers seen so far (memo): a deterministic source is a     *)
(* function of its seed and the requests, a caller's source is consulted for  *)
(* every number, a file is read as big-endian groups of bytes.                *)
EXTENDS AlgTrace, FiniteSetsExt
VARIABLES src, hist
rvars == <<i, flds, regs, pps, memo, src, hist>>

Pow2(k) == BPowInt(<<2>>, k)
BLt(a, b) == BCmp(a, b) < 0
BBits(a) == BBitLen(a)
Below(n, lim) == n[1] >= 0 /\ BLt(n[2], lim)
\* The first group of bytes of the file that is a number below lim, <<>> marking that there is none.
RECURSIVE Chunk(_, _, _)
Chunk(b, p, lim) ==
  LET nb == BBits(lim) w == (nb + 7) \div 8 lo == nb % 8 IN
  IF p + w - 1 > Len(b) THEN [ok |-> FALSE]
  ELSE LET top == IF lo = 0 THEN b[p] ELSE b[p] % (2 ^ lo)
           v == TLCEval(FromBE(<<top>> \o SubSeq(b, p + 1, p + w - 1), 1, <<>>)) IN
       IF BLt(v, lim) THEN [ok |-> TRUE, v |-> v] ELSE Chunk(b, TLCEval(p + w), lim)
FileSays(lim, n) == LET c == TLCEval(Chunk(src.b, 1, lim)) IN IF c.ok THEN n = <<IF c.v = <<>> THEN 0 ELSE 1, c.v>> ELSE n = <<1, <<77>>>>

Draws(e) == IF Has(e, "dr") THEN e.dr ELSE <<>>
Sound(e) == /\ e.lc = 0 /\ (src.k \notin {"fn", "fne"} => e.draws = 0) /\ (src.k \in {"fn", "fne"} => e.draws = Len(Draws(e)))
            /\ \A k \in 1..Len(Draws(e)) : BLt(Draws(e)[k][2], Draws(e)[k][1])
Repeatable == src.k \in {"det", "fn", "fne"} /\ src.seed # 0          \* seed 0 is the warm-up: lazily chosen non-residues draw too
Request(e, key, val) ==
  LET h == TLCEval(Append(hist, key)) dk == <<"draws", key, Draws(e)>> IN
  /\ hist' = h
  /\ IF Repeatable THEN /\ (<<src, h>> \in DOMAIN memo => memo[<<src, h>>] = val)
                        /\ (src.k # "det" /\ dk \in DOMAIN memo => memo[dk] = val)
                        /\ memo' = (<<src, h>> :> val) @@ (dk :> val) @@ memo
     ELSE memo' = memo

Number(e, lim) ==
  CASE src.k \in {"fn", "fne"} -> e.draws = 1 /\ e.dr[1][1] = lim /\ e.n = <<IF e.dr[1][2] = <<>> THEN 0 ELSE 1, e.dr[1][2]>>
    [] src.k = "file" -> FileSays(lim, e.n)
    [] src.k = "nofile" -> e.n = <<1, <<77>>>>
    [] OTHER -> Below(e.n, lim)
StepNumber(e) ==
  LET lim == IF e.op = "mpzrandom" THEN e.lim[2] ELSE Pow2(e.bits) IN
  /\ Opt(e, "nmod", 0) = 0 /\ Sound(e) /\ Number(e, lim) /\ Request(e, <<e.op, lim>>, e.n)
  /\ UNCHANGED <<flds, regs, pps, src>>

\* The modular integers a value is made of, in any order.
RECURSIVE Parts(_, _)
Parts(s, v) == IF s.t = "zn" THEN << <<s.n, v>> >> ELSE LET n == Len(v) IN FoldLeft(LAMBDA acc, k : acc \o Parts(s.b, v[k]), <<>>, [k \in 1..n |-> k])
SameBag(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Cardinality({j \in 1..Len(x) : x[j] = x[k]}) = Cardinality({j \in 1..Len(y) : y[j] = x[k]})
RECURSIVE Tower(_)
Tower(s) == s.t = "zn" \/ (s.t \in {"quad", "pm"} /\ Tower(s.b))
SubgroupOk(e, s, c) ==
  CASE s.t = "ec" -> SIn(s, c) /\ (s.k # "G2" => EIsMul(s, s.r, c, <<>>))
    [] s.t = "gt" -> RIn(s.b, c) /\ c # RZero(s.b) /\ RPow(s.b, c, s.r) = ROne(s.b)
    [] s.t = "opaque" -> e.ord = 1
    [] OTHER -> RIn(s, c)
StepElement(e) ==
  LET d == e.a[1] s == S(d) c == New(e, d) IN
  /\ Frame(e, {d}) /\ (s.t # "opaque" => Flags(e, s)) /\ Sound(e)
  /\ IF Tower(s) /\ src.k \in {"fn", "fne"} THEN SameBag(Parts(s, c), Draws(e))
     ELSE src.k \in {"fn", "fne"} => e.draws >= 1
  /\ IF s.t = "zn" /\ src.k = "file" THEN LET k == TLCEval(Chunk(src.b, 1, s.n)) IN IF k.ok THEN c = k.v ELSE RIn(s, c)
     ELSE IF src.k \in {"file", "nofile"} THEN (s.t \notin {"ec", "gt", "opaque"} => RIn(s, c))
     ELSE SubgroupOk(e, s, c)
  /\ Request(e, <<"random", regs[d].f>>, c)
  /\ regs' = [regs EXCEPT ![d].v = c] /\ UNCHANGED <<flds, pps, src>>
StepMonic(e) ==
  LET d == e.a[1] s == S(d) c == New(e, d) IN
  /\ Frame(e, {d}) /\ Sound(e)
  /\ RIn(s, c) /\ Len(c) = e.deg + 1 /\ c[Len(c)] = ROne(s.b)
  /\ (src.k \in {"fn", "fne"} /\ Tower(s.b) => SameBag(Parts(s, SubSeq(c, 1, e.deg)), Draws(e)))
  /\ Request(e, <<"rndmonic", regs[d].f, e.deg>>, c)
  /\ regs' = [regs EXCEPT ![d].v = c] /\ UNCHANGED <<flds, pps, src>>
\* Every element of a small structure comes up.
SizeOf(s) == BToInt(IF s.t = "ec" THEN s.r ELSE RCard(s))
StepCover(e) ==
  LET d == e.a[1] s == S(d) IN
  /\ e.lc = 0 /\ \A k \in 1..Len(e.seen) : SIn(s, e.seen[k])
  /\ Cardinality({e.seen[k] : k \in 1..Len(e.seen)}) = SizeOf(s)
  /\ Frame(e, {d}) /\ hist' = <<>> /\ src' = [k |-> "used"]
  /\ regs' = [regs EXCEPT ![d].v = New(e, d)] /\ UNCHANGED <<flds, pps, memo>>
RInit == Init /\ src = [k |-> "default"] /\ hist = <<>>
RNext ==
  /\ i < Len(Trace) /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "rng" THEN src' = [k |-> e.k] @@ (IF e.k = "file" THEN [b |-> e.b] ELSE IF e.k = "nofile" THEN [x |-> 0] ELSE [seed |-> e.seed]) /\ hist' = <<>> /\ UNCHANGED <<flds, regs, pps, memo>>
     ELSE IF e.op \in {"mpzrandom", "mpzrandomb"} THEN StepNumber(e)
     ELSE IF e.op = "random" THEN StepElement(e)
     ELSE IF e.op = "rndmonic" THEN StepMonic(e)
     ELSE IF e.op = "cover" THEN StepCover(e)
     ELSE IF e.op = "elem" /\ flds[e.f].t = "opaque" THEN regs' = (e.a[1] :> [f |-> e.f, v |-> New(e, e.a[1])]) @@ regs /\ UNCHANGED <<flds, pps, memo, src, hist>>
     ELSE IF e.op = "end" THEN src' = [k |-> "default"] /\ hist' = <<>> /\ StepQuery(e)
     ELSE UNCHANGED <<src, hist>> /\ (StepOp(e) \/ StepIO(e) \/ StepQuery(e) \/ StepDecl(e) \/ StepMulti(e))
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
