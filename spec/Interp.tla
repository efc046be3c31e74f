------------------------------- MODULE Interp -------------------------------
(* The language of the pairing-based calculator (pbc/): lexical structure,    *)
(* grammar, and evaluation of programs.  A run of the calculator is judged as *)
(* a whole: program text, way of running it, everything it printed, and its   *)
(* exit status.                                                               *)
(*   Text and output are sequences of character codes.                        *)
(*   Values: elem (of a structure of Alg, or M = integer multinomials of Mz), *)
(*   field, fun (built in), def (user defined), err, none.                    *)
(* Values the language leaves open (random elements, square roots) are read   *)
(* from the output: programs print such a value in the statement that draws   *)
(* it or in the one after it.                                                 *)
EXTENDS Mz, Tate

Cod == LET abc == "abcdefghijklmnopqrstuvwxyz" ABC == "ABCDEFGHIJKLMNOPQRSTUVWXYZ" dig == "0123456789"
           oth == " !#$%&'()*+,-./:;<=>?@[]^_{|}~" codes == <<32, 33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 93, 94, 95, 123, 124, 125, 126>>
           tab(s, F(_)) == [c \in {SubSeq(s, k, k) : k \in 1..Len(s)} |-> F(CHOOSE k \in 1..Len(s) : SubSeq(s, k, k) = c)]
       IN TLCEval(tab(abc, LAMBDA k : 96 + k) @@ tab(ABC, LAMBDA k : 64 + k) @@ tab(dig, LAMBDA k : 47 + k) @@ tab(oth, LAMBDA k : codes[k]))
Bytes(s) == TSeq(Len(s), LAMBDA k : Cod[SubSeq(s, k, k)])

-----------------------------------------------------------------------------
(* Lexical structure.  A token is <<kind, payload, line>>.                    *)
IsDig(c) == c \in 48..57
IsAl(c) == c \in 65..90 \cup 97..122 \cup {95}
RECURSIVE EndOf(_, _, _), CloseC(_, _), Lines(_, _, _)
InTok(s, p, K) == p <= Len(s) /\ (IsDig(s[p]) \/ (K = "id" /\ IsAl(s[p])) \/ (K = "rest" /\ s[p] # 10))
EndOf(s, p, K) == IF InTok(s, p, K) THEN IF \A j \in 1..15 : InTok(s, p + j, K) THEN EndOf(s, p + 16, K) ELSE EndOf(s, p + 1, K) ELSE p
CloseC(s, p) == IF p >= Len(s) THEN Len(s) + 1 ELSE IF s[p] = 42 /\ s[p + 1] = 47 THEN p + 2 ELSE CloseC(s, p + 1)
Lines(s, p, q) == Cardinality({k \in p..(q - 1) : s[k] = 10})
Two(s, p, a, b) == At(s, p) = a /\ At(s, p + 1) = b
Single == (43 :> "+") @@ (45 :> "-") @@ (47 :> "/") @@ (42 :> "*") @@ (94 :> "^") @@ (59 :> ";") @@ (44 :> ",") @@ (63 :> "?") @@ (58 :> ":")
          @@ (40 :> "(") @@ (41 :> ")") @@ (91 :> "[") @@ (93 :> "]") @@ (123 :> "{") @@ (125 :> "}") @@ (60 :> "<") @@ (62 :> ">")
\* One pass over the text: at position k a token starts unless an earlier one reaches beyond it.
LexStep(s, easy, st, k) ==
  IF k < st.p THEN st
  ELSE LET c == s[k] ln == st.ln
           tok(n, x, q) == [p |-> q, ln |-> ln, acc |-> Append(st.acc, <<n, x, ln>>)]
           skip(q, l) == [p |-> q, ln |-> l, acc |-> st.acc] IN
    IF Two(s, k, 47, 42) THEN LET q == TLCEval(CloseC(s, k + 2)) IN skip(q, ln + Lines(s, k, q))
    ELSE IF c = 35 THEN skip(EndOf(s, k, "rest"), ln)
    ELSE IF c \in {32, 9, 13} THEN skip(k + 1, ln)
    ELSE IF c = 10 THEN IF easy THEN [tok(";", "", k + 1) EXCEPT !.ln = ln + 1] ELSE skip(k + 1, ln + 1)
    ELSE IF IsDig(c) THEN LET q == TLCEval(EndOf(s, k, "num")) IN tok("num", TLCEval(Num(SubSeq(s, k, q - 1), 1, 10, <<>>).v), q)
    ELSE IF IsAl(c) THEN LET q == TLCEval(EndOf(s, k, "id")) w == TLCEval(SubSeq(s, k, q - 1)) IN IF w = <<100, 101, 102, 105, 110, 101>> THEN tok("define", "", q) ELSE tok("id", w, q)
    ELSE IF Two(s, k, 58, 61) THEN tok(":=", "", k + 2)
    ELSE IF Two(s, k, 61, 61) THEN tok("==", "", k + 2)
    ELSE IF Two(s, k, 33, 61) THEN tok("!=", "", k + 2)
    ELSE IF Two(s, k, 60, 61) THEN tok("<=", "", k + 2)
    ELSE IF Two(s, k, 62, 61) THEN tok(">=", "", k + 2)
    ELSE IF c = 61 THEN tok(IF easy THEN ":=" ELSE "unknown", "", k + 1)
    ELSE IF c \in DOMAIN Single THEN tok(Single[c], "", k + 1)
    ELSE tok("unknown", "", k + 1)
Lex(s, easy) == FoldLeft(LAMBDA st, k : TLCEval(LexStep(s, easy, st, k)), [p |-> 1, ln |-> 1, acc |-> <<>>], [k \in 1..Len(s) |-> k]).acc

-----------------------------------------------------------------------------
(* Grammar.  A parse is [ok |-> TRUE, p |-> next token, t |-> tree] or        *)
(* [ok |-> FALSE, p |-> the first token that cannot continue the statement].  *)
K(ts, p) == IF p <= Len(ts) THEN ts[p][1] ELSE "end"
Fail(p) == [ok |-> FALSE, p |-> p]
Got(p, t) == [ok |-> TRUE, p |-> p, t |-> t]
\* binary operators: precedence (assignment 1, conditional 2, unary minus 6) and associativity
Prec == ("==" :> 3) @@ ("!=" :> 3) @@ ("<" :> 3) @@ (">" :> 3) @@ ("<=" :> 3) @@ (">=" :> 3) @@ ("+" :> 4) @@ ("-" :> 4) @@ ("*" :> 5) @@ ("/" :> 5) @@ ("^" :> 7)
RECURSIVE PExpr(_, _, _), PInfix(_, _, _, _), PPrefix(_, _), PCalls(_, _, _), PList(_, _, _, _), PStmt(_, _), PStmts(_, _, _), PParms(_, _, _)
\* comma-separated expressions up to the closing token; p is after the opening one or after a comma
PList(ts, p, close, acc) ==
  LET r == TLCEval(PExpr(ts, p, 0)) IN
  IF ~r.ok THEN r
  ELSE LET a == Append(acc, r.t) IN
       IF K(ts, r.p) = "," THEN PList(ts, r.p + 1, close, a) ELSE IF K(ts, r.p) = close THEN Got(r.p + 1, a) ELSE Fail(r.p)
PCalls(ts, p, t) ==
  IF K(ts, p) = "(" THEN
    IF K(ts, p + 1) = ")" THEN PCalls(ts, p + 2, [n |-> "call", f |-> t, a |-> <<>>])
    ELSE LET r == TLCEval(PList(ts, p + 1, ")", <<>>)) IN IF r.ok THEN PCalls(ts, r.p, [n |-> "call", f |-> t, a |-> r.t]) ELSE r
  ELSE IF K(ts, p) = "[" THEN
    LET r == TLCEval(PExpr(ts, p + 1, 0)) IN
    IF ~r.ok THEN r ELSE IF K(ts, r.p) = "]" THEN Got(r.p + 1, [n |-> "op", op |-> "item", a |-> <<t, r.t>>]) ELSE Fail(r.p)
  ELSE Got(p, t)
PPrefix(ts, p) ==
  LET k == K(ts, p) IN
  CASE k = "num" -> Got(p + 1, [n |-> "num", v |-> ts[p][2]])
    [] k = "[" -> LET r == TLCEval(PList(ts, p + 1, "]", <<>>)) IN IF r.ok THEN Got(r.p, [n |-> "list", a |-> r.t]) ELSE r
    [] k = "-" -> LET r == TLCEval(PExpr(ts, p + 1, 7)) IN IF r.ok THEN Got(r.p, [n |-> "op", op |-> "neg", a |-> <<r.t>>]) ELSE r
    [] k = "(" -> LET r == TLCEval(PExpr(ts, p + 1, 0)) IN IF ~r.ok THEN r ELSE IF K(ts, r.p) = ")" THEN PCalls(ts, r.p + 1, r.t) ELSE Fail(r.p)
    [] k = "id" -> IF K(ts, p + 1) = ":=" THEN LET r == TLCEval(PExpr(ts, p + 2, 1)) IN IF r.ok THEN Got(r.p, [n |-> "assign", id |-> ts[p][2], a |-> <<r.t>>]) ELSE r
                   ELSE PCalls(ts, p + 1, [n |-> "id", id |-> ts[p][2]])
    [] OTHER -> Fail(p)
PInfix(ts, p, min, t) ==
  LET k == K(ts, p) IN
  IF k = "?" /\ min <= 2 THEN
    LET m == TLCEval(PExpr(ts, p + 1, 0)) IN
    IF ~m.ok THEN m ELSE IF K(ts, m.p) # ":" THEN Fail(m.p)
    ELSE LET e == TLCEval(PExpr(ts, m.p + 1, 2)) IN IF ~e.ok THEN e ELSE PInfix(ts, e.p, min, [n |-> "if", a |-> <<t, m.t, e.t>>])
  ELSE IF k \in DOMAIN Prec /\ Prec[k] >= min THEN
    LET r == TLCEval(PExpr(ts, p + 1, IF k = "^" THEN 7 ELSE Prec[k] + 1)) IN IF ~r.ok THEN r ELSE PInfix(ts, r.p, min, [n |-> "op", op |-> k, a |-> <<t, r.t>>])
  ELSE Got(p, t)
PExpr(ts, p, min) == LET r == TLCEval(PPrefix(ts, p)) IN IF r.ok THEN PInfix(ts, r.p, min, r.t) ELSE r
PParms(ts, p, acc) ==      \* after "(" or ","
  IF K(ts, p) # "id" THEN Fail(p)
  ELSE LET a == Append(acc, ts[p][2]) IN IF K(ts, p + 1) = "," THEN PParms(ts, p + 2, a) ELSE IF K(ts, p + 1) = ")" THEN Got(p + 2, a) ELSE Fail(p + 1)
PStmts(ts, p, acc) == IF K(ts, p) = "}" THEN Got(p + 1, acc) ELSE LET r == TLCEval(PStmt(ts, p)) IN IF r.ok THEN PStmts(ts, r.p, Append(acc, r.t)) ELSE r
PStmt(ts, p) ==
  IF K(ts, p) = "define" THEN
    IF K(ts, p + 1) # "id" THEN Fail(p + 1) ELSE IF K(ts, p + 2) # "(" THEN Fail(p + 2)
    ELSE LET q == TLCEval(IF K(ts, p + 3) = ")" THEN Got(p + 4, <<>>) ELSE PParms(ts, p + 3, <<>>)) IN
         IF ~q.ok THEN q ELSE IF K(ts, q.p) # "{" THEN Fail(q.p)
         ELSE LET r == TLCEval(PStmts(ts, q.p + 1, <<>>)) IN IF r.ok THEN Got(r.p, [n |-> "define", id |-> ts[p + 1][2], ps |-> q.t, body |-> r.t]) ELSE r
  ELSE LET r == TLCEval(PExpr(ts, p, 0)) IN IF ~r.ok THEN r ELSE IF K(ts, r.p) = ";" THEN Got(r.p + 1, r.t) ELSE Fail(r.p)

-----------------------------------------------------------------------------
(* Evaluation.  The state s: env (variables), o (position in the output),     *)
(* stop: "" while running; "exit" with status rc; "wrong" when the output     *)
(* differs; "open" when the program leaves what the language defines.         *)
MS == [t |-> "mz"]
Elem(S, v) == [k |-> "elem", s |-> S, v |-> v]
MkInt(z) == Elem(MS, MkI(z))
\* Results of list arithmetic are multinomials up to trailing zeros: how many the
\* program keeps is not determined (ap).  Literals and integers are exact.
Ap(x) == x @@ [ap |-> TRUE]
IsAp(x) == "ap" \in DOMAIN x
\* Names and messages are sequences of codes.
Err(msg) == [k |-> "err", msg |-> SubSeq(msg, 1, IF Len(msg) > 79 THEN 79 ELSE Len(msg))]
None == [k |-> "none"]
R(v, s) == [v |-> v, s |-> s]
Stop(s, why) == IF s.stop # "" THEN s ELSE [s EXCEPT !.stop = why]
Open(s) == R(None, Stop(s, "open"))
Lost == <<-1>>             \* the output of a run that crashed
Put(s, out, b) ==          \* b is printed
  IF s.stop # "" \/ out = Lost THEN s
  ELSE IF s.o + Len(b) <= Len(out) /\ SubSeq(out, s.o + 1, s.o + Len(b)) = b THEN [s EXCEPT !.o = @ + Len(b)] ELSE Stop(s, "wrong")
LineEnd(out, p) == EndOf(out, p, "rest")            \* the next newline (or the end)
RECURSIVE MRead(_, _), MReadL(_, _, _)
MRead(t, p) == IF At(t, p) = 91 THEN MReadL(t, p + 1, <<>>)
               ELSE LET neg == At(t, p) = 45 q == IF neg THEN p + 1 ELSE p e == EndOf(t, q, "num")
                    IN [p |-> e, v |-> IF e = q THEN [z |-> <<7, <<>>>>] ELSE MkI(MkZ(IF neg THEN -1 ELSE 1, Num(SubSeq(t, q, e - 1), 1, 10, <<>>).v))]
MReadL(t, p, acc) == LET r == TLCEval(MRead(t, p)) a == Append(acc, r.v) IN
                     IF At(t, r.p) = 44 /\ At(t, r.p + 1) = 32 THEN MReadL(t, r.p + 2, a) ELSE [p |-> IF At(t, r.p) = 93 THEN r.p + 1 ELSE 1000000, v |-> [l |-> a]]
\* The value v is printed, and a newline.
Show(s, out, v) ==
  IF s.stop # "" \/ (out = Lost /\ v.k # "field") THEN s
  ELSE LET nl(b) == Put(s, out, b \o <<10>>) IN
  CASE v.k = "err" -> nl(v.msg)
    [] v.k = "fun" -> nl(Bytes("built-in function " \o v.name \o ", arity ") \o Digits(BFromInt(v.arity), 10, <<>>))
    [] v.k = "def" -> nl(Bytes("user-defined function ") \o v.d.id)
    [] v.k = "field" -> Stop(s, "open")
    [] v.k = "elem" /\ v.s.t = "mz" ->
         IF IsZ(v.v) /\ ~IsAp(v) THEN nl(SignedText(v.v.z, 10))
         ELSE LET e == LineEnd(out, s.o + 1) line == SubSeq(out, s.o + 1, e - 1) r == TLCEval(MRead(line, 1)) IN
              IF r.p = Len(line) + 1 /\ MText(r.v, 10) = line /\ MEq(r.v, v.v) /\ At(out, e) = 10 THEN [s EXCEPT !.o = e] ELSE Stop(s, "wrong")
    [] OTHER -> nl(Text(v.s, v.v, 10))
\* A value of S the language does not determine: it is what the output shows next.
RECURSIVE SkipP(_, _)
SkipP(out, o) == IF Two(out, o + 1, 62, 32) THEN SkipP(out, o + 2) ELSE o          \* the prompts of -y mode
Shown(s, out, S, P(_)) ==
  LET o == TLCEval(SkipP(out, s.o)) e == LineEnd(out, o + 1) line == SubSeq(out, o + 1, e - 1) r == TLCEval(Parse(S, line, 1, 10)) IN
  IF s.stop # "" THEN R(None, s)
  ELSE IF out # Lost /\ r.ok /\ r.p = Len(line) + 1 /\ SIn(S, r.v) /\ Text(S, r.v, 10) = line /\ P(r.v) THEN R(Elem(S, r.v), s) ELSE R(None, Stop(s, "wrong"))

Def(S) == S.t \in {"zn", "quad", "pm", "ec", "gt"}          \* structures whose elements can be read back
InGroup(S, v) == CASE S.t = "ec" -> ("sub" \in DOMAIN S => (S.sub => EScale(S, S.r, v) = <<>>)) [] S.t = "gt" -> RPow(S.b, v, S.r) = ROne(S.b) [] OTHER -> TRUE
FNeg(S, a) == CASE S.t = "ec" -> ENeg(S, a) [] S.t = "gt" -> RInv(S.b, a) [] OTHER -> RNeg(S, a)
FAdd(S, a, b) == CASE S.t = "ec" -> EAdd(S, a, b) [] S.t = "gt" -> RMul(S.b, a, b) [] OTHER -> RAdd(S, a, b)
FMul(S, a, b) == IF IsGroup(S) THEN FAdd(S, a, b) ELSE RMul(S, a, b)
FPow(S, a, n) == CASE S.t = "ec" -> EScale(S, n, a) [] S.t = "gt" -> RPow(S.b, a, n) [] OTHER -> RPow(S, a, n)
FUnit(S, a) == CASE IsGroup(S) -> TRUE [] S.t = "zn" -> BGcd(a, S.n) = <<1>> [] S.t \in {"quad", "pm"} -> a # RZero(S) [] OTHER -> FALSE
FInv(S, a) == IF IsGroup(S) THEN FNeg(S, a) ELSE RInv(S, a)
Bool(b) == MkInt(IF b THEN Z1 ELSE Z0)
Rel(op, c) == CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0 [] op = ">" -> c > 0 [] op = "<=" -> c <= 0 [] op = ">=" -> c >= 0
ExpOf(b) == CASE b.s.t = "mz" -> ConstTerm(b.v) [] b.s.t = "zn" -> MkZ(1, b.v) [] OTHER -> <<-1, <<1>>>>
\* Binary operators on two elements.
OnM(op, a, b, s, ap) ==
  LET ok(v) == R(IF ap THEN Ap(Elem(MS, v)) ELSE Elem(MS, v), s) IN
  CASE op = "+" -> ok(MAdd(a, b))
    [] op = "-" -> ok(MAdd(a, TLCEval(MMap("neg", b, Z0))))
    [] op = "*" -> ok(MMul(a, b))
    [] op = "/" -> IF ConstTerm(b) = Z0 THEN R(Err(Bytes("division by zero")), s) ELSE ok(MMap("tdiv", a, ConstTerm(b)))
    [] op = "^" -> LET e == ConstTerm(b) IN IF e[1] < 0 \/ BCmp(e[2], <<64>>) > 0 THEN Open(s) ELSE ok(IF IsZ(a) THEN MkI(ZPow(a.z, e[2])) ELSE MPow(a, BToInt(e[2])))
OnS(op, S, a, b, s) ==
  LET ok(v) == R(Elem(S, v), s) IN
  CASE op = "+" -> ok(FAdd(S, a, b))
    [] op = "-" -> ok(FAdd(S, a, TLCEval(FNeg(S, b))))
    [] op = "*" -> ok(FMul(S, a, b))
    [] op = "/" -> IF FUnit(S, b) THEN ok(FMul(S, a, TLCEval(FInv(S, b)))) ELSE Open(s)
ListOp(x, y) == IsAp(x) \/ IsAp(y) \/ ~IsZ(x.v) \/ ~IsZ(y.v)
Binary(op, x, y, s) ==
  IF op = "^" THEN IF x.s.t = "mz" THEN (IF y.s.t = "mz" THEN OnM(op, x.v, y.v, s, ListOp(x, y)) ELSE Open(s))
                   ELSE LET e == ExpOf(y) IN IF e[1] < 0 \/ (e[2] = <<>> /\ x.s.t = "poly" /\ x.v = <<>>) THEN Open(s) ELSE R(Elem(x.s, FPow(x.s, x.v, e[2])), s)
  ELSE IF x.s # y.s THEN Open(s)
  ELSE IF op \in DOMAIN Prec /\ Prec[op] = 3 THEN
    IF x.s.t = "mz" THEN R(Bool(Rel(op, MCmp(x.v, y.v))), s) ELSE IF op \in {"==", "!="} THEN R(Bool(Rel(op, IF x.v = y.v THEN 0 ELSE 1)), s) ELSE Open(s)
  ELSE IF x.s.t = "mz" THEN OnM(op, x.v, y.v, s, ListOp(x, y)) ELSE OnS(op, x.s, x.v, y.v, s)
\* The i-th coordinate.
Item(x, y, s) ==
  LET n == CASE x.s.t = "mz" -> IF IsZ(x.v) THEN 0 ELSE Len(x.v.l) [] x.s.t \in {"quad", "pm", "poly", "ec"} -> Len(x.v) [] x.s.t = "gt" -> Len(x.v) [] OTHER -> 0
      e == ExpOf(y) IN
  IF y.s.t \notin {"mz", "zn"} THEN Open(s)
  ELSE IF e[1] >= 0 /\ IsAp(x) /\ (n = 0 \/ \A j \in 1..n : BCmp(e[2], BFromInt(j - 1)) <= 0 => MEq(x.v.l[j], MkI(Z0))) THEN Open(s)
  ELSE IF e[1] < 0 \/ BCmp(e[2], BFromInt(n)) >= 0 THEN R(Err(Bytes("index out of range")), s)
  ELSE LET j == BToInt(e[2]) + 1 IN
       R(IF x.s.t = "mz" THEN IF IsAp(x) THEN Ap(Elem(MS, x.v.l[j])) ELSE Elem(MS, x.v.l[j]) ELSE Elem(IF x.s.t = "gt" THEN x.s.b.b ELSE x.s.b, x.v[j]), s)
OpName == ("+" :> "add") @@ ("-" :> "sub") @@ ("*" :> "mul") @@ ("/" :> "div") @@ ("^" :> "pow") @@ ("neg" :> "neg") @@ ("item" :> "item")
          @@ ("==" :> "==") @@ ("!=" :> "!=") @@ ("<" :> "<") @@ (">" :> ">") @@ ("<=" :> "<=") @@ (">=" :> ">=")
\* Conversion of x to the structure S.
Cast(S, x, s) ==
  IF x.s.t = "mz" THEN
    IF S.t = "mz" THEN R(x, s)
    ELSE IF MEq(x.v, MkI(Z0)) THEN R(Elem(S, Id0(S)), s)
    ELSE IF MEq(x.v, MkI(Z1)) THEN R(Elem(S, Id1(S)), s)
    ELSE IF S.t = "ec" THEN IF IsZ(x.v) THEN Open(s) ELSE IF Len(x.v.l) < 2 THEN Open(s)
                            ELSE LET P == TLCEval(<<Assign(S.b, x.v.l[1]), Assign(S.b, x.v.l[2])>>) IN R(Elem(S, IF EOn(S, P) THEN P ELSE <<>>), s)
    ELSE R(Elem(S, Assign(S, x.v)), s)
  ELSE IF S.t = "mz" THEN (IF x.s.t = "zn" THEN R(MkInt(MkZ(1, x.v)), s) ELSE IF x.s.t = "z" THEN R(MkInt(x.v), s) ELSE Open(s))
  ELSE IF x.s = S THEN R(x, s) ELSE Open(s)

\* Built-in functions: parameter kinds ("" is any).
Sig == ("rnd" :> <<"field">>) @@ ("random" :> <<"field">>) @@ ("ord" :> <<"field">>) @@ ("order" :> <<"field">>) @@ ("nextprime" :> <<"elem">>) @@ ("sqrt" :> <<"elem">>)
       @@ ("inv" :> <<"elem">>) @@ ("type" :> <<"">>) @@ ("pairing" :> <<"elem", "elem">>) @@ ("zmod" :> <<"elem">>) @@ ("poly" :> <<"field">>) @@ ("polymod" :> <<"elem">>)
       @@ ("extend" :> <<"field", "elem">>) @@ ("exit" :> <<"elem">>) @@ ("CHECK" :> <<"elem">>)
       @@ ("init_pairing_a" :> <<>>) @@ ("init_pairing_d" :> <<>>) @@ ("init_pairing_e" :> <<>>) @@ ("init_pairing_f" :> <<>>) @@ ("init_pairing_g" :> <<>>) @@ ("init_pairing_i" :> <<>>)
Reserved == TLCEval([b \in {Bytes(f) : f \in DOMAIN Sig \cup {"M", "Z"}} |-> CHOOSE f \in DOMAIN Sig \cup {"M", "Z"} : Bytes(f) = b])
Small(z) == z[1] >= 0 /\ BBitLen(z[2]) < 23
IsPrimeI(n) == n > 1 /\ \A d \in 2..4096 : d * d > n \/ n % d # 0          \* n < 2^24
RECURSIVE NextP(_)
NextP(n) == IF IsPrimeI(n + 1) THEN n + 1 ELSE NextP(n + 1)
\* The groups of a sample pairing: G(type, name) is supplied by the run.
Groups(G, t) == LET f(x) == Bytes(x) :> [k |-> "field", s |-> G[t \o "." \o x]] IN f("G1") @@ f("G2") @@ f("GT") @@ f("Zr")
TypeName == ("elem" :> "element") @@ ("field" :> "field") @@ ("fun" :> "builtin") @@ ("def" :> "function") @@ ("err" :> "error")
Monic(S, p) == Len(p) >= 3 /\ p[Len(p)] = ROne(S)
Builtin(f, a, s, out, G) ==
  LET x == a[1] IN
  CASE f \in {"rnd", "random"} -> IF x.s.t = "mz" THEN R(MkInt(Z0), s) ELSE IF Def(x.s) THEN Shown(s, out, x.s, LAMBDA v : InGroup(x.s, v)) ELSE Open(s)
    [] f \in {"ord", "order"} -> IF IsGroup(x.s) /\ "r" \in DOMAIN x.s THEN R(MkInt(MkZ(1, x.s.r)), s) ELSE IF x.s.t \in {"zn", "quad", "pm"} THEN R(MkInt(MkZ(1, RCard(x.s))), s) ELSE Open(s)
    [] f = "nextprime" -> IF x.s.t # "mz" THEN Open(s) ELSE LET z == ConstTerm(x.v) IN
                          IF z[1] < 0 THEN R(MkInt(<<1, <<2>>>>), s) ELSE IF Small(z) THEN R(MkInt(ZOfInt(NextP(BToInt(z[2])))), s) ELSE Open(s)
    [] f = "sqrt" -> IF x.s.t = "zn" /\ RIsSquare(x.s, x.v) THEN Shown(s, out, x.s, LAMBDA v : RMul(x.s, v, v) = x.v) ELSE Open(s)
    [] f = "inv" -> IF x.s.t \in {"zn", "quad", "pm", "ec", "gt"} /\ FUnit(x.s, x.v) THEN R(Elem(x.s, FInv(x.s, x.v)), s) ELSE Open(s)
    [] f = "type" -> R(x, Put(s, out, Bytes(TypeName[x.k]) \o <<10>>))
    [] f = "pairing" -> LET y == a[2] IN
                        IF x.s.t = "ec" /\ y.s.t = "ec" /\ "pt" \in DOMAIN x.s /\ "pt" \in DOMAIN y.s
                        THEN LET t == x.s.pt IN
                             IF y.s.pt = t /\ t # "e" /\ x.s = G[t \o ".G1"] /\ y.s = G[t \o ".G2"]
                             THEN R(Elem(G[t \o ".GT"], TateValue(t, x.s, G[t \o ".GT"].b, x.s.r, x.v, y.v, <<>>)), s) ELSE Open(s)
                        ELSE Open(s)
    [] f = "zmod" -> LET z == IF x.s.t = "mz" THEN ConstTerm(x.v) ELSE Z0 IN IF z[1] > 0 /\ BBit(z[2], 0) = 1 /\ z[2] # <<1>> THEN R([k |-> "field", s |-> [t |-> "zn", n |-> z[2]]], s) ELSE Open(s)
    [] f = "poly" -> IF x.s.t \in {"zn", "pm"} THEN R([k |-> "field", s |-> [t |-> "poly", b |-> x.s]], s) ELSE Open(s)
    [] f = "polymod" -> IF x.s.t = "poly" THEN IF Monic(x.s.b, x.v) THEN R([k |-> "field", s |-> [t |-> "pm", b |-> x.s.b, n |-> Len(x.v) - 1, red |-> TSeq(Len(x.v) - 1, LAMBDA i : RNeg(x.s.b, x.v[i]))]], s) ELSE Open(s)
                        ELSE Open(s)
    [] f = "extend" -> IF x.s.t \in {"zn", "pm"} /\ a[2].s.t = "mz"
                       THEN LET p == TLCEval(Assign([t |-> "poly", b |-> x.s], a[2].v)) IN
                            IF Monic(x.s, p) THEN R([k |-> "field", s |-> [t |-> "pm", b |-> x.s, n |-> Len(p) - 1, red |-> TSeq(Len(p) - 1, LAMBDA i : RNeg(x.s, p[i]))]], s) ELSE Open(s)
                       ELSE Open(s)
    [] f = "exit" -> IF x.s.t # "mz" THEN Open(s) ELSE LET z == ConstTerm(x.v) IN
                     IF BBitLen(z[2]) > 30 THEN Open(s) ELSE R(None, [Stop(s, "exit") EXCEPT !.rc = (z[1] * BToInt(z[2])) % 256])
    [] f = "CHECK" -> IF (IF x.s.t = "mz" THEN MEq(x.v, MkI(Z0)) ELSE x.v = Id0(x.s)) THEN R(None, [Stop(s, "exit") EXCEPT !.rc = 128]) ELSE R(x, s)
    [] OTHER -> LET t == SubSeq(f, 14, 14) IN                \* init_pairing_?
                IF (t \o ".G1") \in DOMAIN G THEN R(None, [s EXCEPT !.env = Groups(G, t) @@ @]) ELSE Open(s)

RECURSIVE Ev(_, _, _, _), EvArgs(_, _, _, _, _, _, _), EvAll(_, _, _, _, _, _), EvBody(_, _, _, _, _), EvList(_, _, _, _, _, _)
\* Arguments in order, each checked against its kind before the next is looked at.
EvArgs(name, sig, ts, k, acc, s, c) ==
  IF k > Len(ts) THEN [ok |-> TRUE, v |-> acc, s |-> s]
  ELSE LET r == TLCEval(Ev(ts[k], s, c.out, c.G)) IN
       IF r.s.stop # "" THEN [ok |-> FALSE, v |-> None, s |-> r.s]
       ELSE IF r.v.k = "none" \/ (sig[k] # "" /\ r.v.k # sig[k]) THEN [ok |-> FALSE, v |-> Err(Bytes(name \o ": argument " \o ToString(k) \o " type mismatch")), s |-> r.s]
       ELSE EvArgs(name, sig, ts, k + 1, Append(acc, r.v), r.s, c)
EvAll(ts, k, acc, s, out, G) == IF k > Len(ts) THEN [v |-> acc, s |-> s] ELSE LET r == TLCEval(Ev(ts[k], s, out, G)) IN EvAll(ts, k + 1, Append(acc, r.v), r.s, out, G)
EvBody(ts, k, s, out, G) == IF k > Len(ts) \/ s.stop # "" THEN s ELSE EvBody(ts, k + 1, TLCEval(Ev(ts[k], s, out, G).s), out, G)
EvList(ts, k, acc, s, out, G) ==
  IF k > Len(ts) THEN LET v == Elem(MS, [l |-> TSeq(Len(acc), LAMBDA j : acc[j].v)]) IN R(IF \E j \in 1..Len(acc) : IsAp(acc[j]) THEN Ap(v) ELSE v, s)
  ELSE LET r == TLCEval(Ev(ts[k], s, out, G)) IN
       IF r.s.stop # "" \/ r.v.k = "err" THEN r
       ELSE IF r.v.k # "elem" THEN R(Err(Bytes("element expected in list")), r.s)
       ELSE IF r.v.s.t # "mz" THEN Open(r.s)
       ELSE EvList(ts, k + 1, Append(acc, r.v), r.s, out, G)
\* An unbound (or valueless) variable, a built-in name.
Lookup(id, s) == IF id \in DOMAIN Reserved
                 THEN LET f == Reserved[id] IN IF f = "M" THEN [k |-> "field", s |-> MS] ELSE IF f = "Z" THEN [k |-> "field", s |-> [t |-> "z"]] ELSE [k |-> "fun", name |-> f, arity |-> Len(Sig[f])]
                 ELSE IF id \in DOMAIN s.env /\ s.env[id].k # "none" THEN s.env[id] ELSE Err(Bytes("undefined variable ") \o id)
Ev(t, s, out, G) ==
  IF s.stop # "" THEN R(None, s)
  ELSE LET c == [out |-> out, G |-> G] IN
  CASE t.n = "num" -> R(MkInt(MkZ(1, t.v)), s)
    [] t.n = "id" -> R(Lookup(t.id, s), s)
    [] t.n = "list" -> EvList(t.a, 1, <<>>, s, out, G)
    [] t.n = "assign" -> LET r == TLCEval(Ev(t.a[1], s, out, G)) IN
                         IF r.s.stop # "" THEN r ELSE IF t.id \in DOMAIN Reserved THEN R(Err(t.id \o Bytes(" is reserved")), r.s) ELSE R(r.v, [r.s EXCEPT !.env = (t.id :> r.v) @@ @])
    [] t.n = "define" -> LET v == [k |-> "def", d |-> t] IN R(v, [s EXCEPT !.env = (t.id :> v) @@ @])
    [] t.n = "if" -> LET r == TLCEval(Ev(t.a[1], s, out, G)) IN
                     IF r.s.stop # "" \/ r.v.k = "err" THEN r
                     ELSE IF r.v.k # "elem" THEN R(Err(Bytes("element expected in ternary operator")), r.s)
                     ELSE IF (IF r.v.s.t = "mz" THEN MEq(r.v.v, MkI(Z0)) ELSE r.v.v = Id0(r.v.s)) THEN Ev(t.a[3], r.s, out, G) ELSE Ev(t.a[2], r.s, out, G)
    [] t.n = "op" -> LET r == TLCEval(EvArgs(OpName[t.op], <<"elem", "elem">>, t.a, 1, <<>>, s, c)) IN
                     IF ~r.ok THEN R(r.v, r.s)
                     ELSE IF t.op = "neg" THEN LET x == r.v[1] IN R([x EXCEPT !.v = IF x.s.t = "mz" THEN MMap("neg", x.v, Z0) ELSE FNeg(x.s, x.v)], r.s)
                     ELSE IF t.op = "item" THEN Item(r.v[1], r.v[2], r.s)
                     ELSE Binary(t.op, r.v[1], r.v[2], r.s)
    [] t.n = "call" ->
         LET f == TLCEval(Ev(t.f, s, out, G)) v == f.v s1 == f.s n == Len(t.a) IN
         IF s1.stop # "" THEN f
         ELSE CASE v.k \in {"elem", "none"} -> R(Err(Bytes("function expected")), s1)
                [] v.k = "err" -> f
                [] v.k = "fun" -> IF n # v.arity THEN R(Err(Bytes(v.name \o ": wrong number of arguments")), s1)
                                  ELSE LET r == TLCEval(EvArgs(v.name, Sig[v.name], t.a, 1, <<>>, s1, c)) IN IF r.ok THEN Builtin(v.name, IF n = 0 THEN <<None>> ELSE r.v, r.s, out, G) ELSE R(r.v, r.s)
                [] v.k = "field" -> IF n # 1 THEN R(Err(Bytes("field: wrong number of arguments")), s1)
                                    ELSE LET r == TLCEval(Ev(t.a[1], s1, out, G)) IN
                                         IF r.s.stop # "" THEN r ELSE IF r.v.k # "elem" THEN R(Err(Bytes("field: argument 1 type mismatch")), r.s) ELSE Cast(v.s, r.v, r.s)
                [] v.k = "def" -> IF n # Len(v.d.ps) THEN R(Err(v.d.id \o Bytes(": wrong number of arguments")), s1)
                                  ELSE LET r == TLCEval(EvAll(t.a, 1, <<>>, s1, out, G))
                                           e == TLCEval([x \in {v.d.ps[k] : k \in 1..n} |-> r.v[CHOOSE k \in 1..n : v.d.ps[k] = x /\ \A j \in (k + 1)..n : v.d.ps[j] # x]])
                                       IN R(None, EvBody(v.d.body, 1, TLCEval([r.s EXCEPT !.env = e @@ @]), out, G))

-----------------------------------------------------------------------------
(* Whole runs.  mode: "stdin", "easy" (-y) or "file".                         *)
Prompts(s, out, mode, upto) ==      \* in -y mode every line is preceded by a prompt
  IF mode # "easy" \/ s.pr >= upto THEN s ELSE [Put(s, out, Concat(LAMBDA k : <<62, 32>>, 1, upto - s.pr)) EXCEPT !.pr = upto]
\* One pass over the tokens: a statement starts at token k unless an earlier one reaches beyond it.
StmtAt(ts, st, k, out, G, mode) ==
  IF k < st.p \/ st.s.stop # "" THEN st
  ELSE LET r == TLCEval(PStmt(ts, k)) s == st.s IN
       IF ~r.ok THEN [p |-> IF mode = "file" THEN Len(ts) + 1 ELSE r.p + 1, s |-> s]       \* what was read so far is dropped
       ELSE LET s1 == TLCEval(Prompts(s, out, mode, ts[r.p - 1][3]))
                e == TLCEval(Ev(r.t, s1, out, G))
                s2 == TLCEval(IF e.v.k = "none" \/ (r.t.n = "assign" /\ e.v.k # "err") THEN e.s ELSE Show(e.s, out, e.v))
            IN [p |-> r.p, s |-> s2]
Stmts(ts, s, out, G, mode) == FoldLeft(LAMBDA st, k : TLCEval(StmtAt(ts, st, k, out, G, mode)), [p |-> 1, s |-> s], [k \in 1..Len(ts) |-> k]).s
NLines(text) == Lines(text, 1, Len(text) + 1) + (IF text # <<>> /\ text[Len(text)] # 10 THEN 1 ELSE 0)
Run(text, mode, out, G) ==
  LET src == IF mode # "file" /\ text # <<>> /\ text[Len(text)] # 10 THEN Append(text, 10) ELSE text
      ts == TLCEval(Lex(src, mode = "easy"))
      s == TLCEval(Stmts(ts, [env |-> Groups(G, "a"), o |-> 0, stop |-> "", rc |-> 0, pr |-> 0], out, G, mode))
  IN IF s.stop # "" \/ mode = "file" THEN s
     ELSE Put(TLCEval(Prompts(s, out, mode, NLines(text) + 1)), out, <<10>>)
\* The output and the exit status are those of the language.
\* (A crash loses the output; it is excused only when the program leaves the language.)
Judge(s, out, rc) == s.stop = "open" \/ (s.stop \in {"", "exit"} /\ s.o = Len(out) /\ rc = s.rc)
=============================================================================
