----------------------------- MODULE InterpGen ------------------------------
(* Programs for the calculator, by leftmost derivation: the state is a        *)
(* sentential form, a step replaces its first nonterminal (a name starting    *)
(* with $, with the depth still allowed) by one of its productions.  The      *)
(* kinds of the nonterminals keep programs inside what the language defines:  *)
(* I integer, L list, E exponent, Z element of a prime field held in x or y,  *)
(* W element of an extension, P curve point, T target group element.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Start, Depth, Stmts, Easy

Eol == IF Easy THEN "\n" ELSE ";"
Asg == IF Easy THEN "=" ELSE ":="
Int0 == { <<"0">>, <<"1">>, <<"2">>, <<"3">>, <<"7">>, <<"10">>, <<"007">>, <<"4294967296">>, <<"18446744073709551615">>, <<"340282366920938463463374607431768211457">>, <<"a">>, <<"b">>, <<"c">> }
\* Names that are easily taken for each other.
Stem == "name_of_a_variable_that_is_as_long_as_it_takes_to_go_beyond_any_buffer_one_might_think_of_in_a_calculator_for_pairings_x1234567"
Twins == { <<SubSeq(Stem, 1, k) \o "x", SubSeq(Stem, 1, k) \o "y">> : k \in {1, 7, 15, 31, 63, 127} } \cup { <<SubSeq(Stem, 1, k), SubSeq(Stem, 1, k + 1)>> : k \in {1, 8, 32, 64} } \cup { <<"vx", "vX">>, <<"v1", "v01">>, <<"v_", "v">>, <<"definee", "defin">>, <<"Zr1", "rZr">>, <<"typ", "types">> }
Bodies == {"r" \o Asg \o "10-k;", "r" \o Asg \o "3*k; k" \o Asg \o "7;", "r" \o Asg \o "-[1,2];", "r" \o Asg \o "[k,1]+[1,1];", "r" \o Asg \o "5; r" \o Asg \o "r+k;", "r" \o Asg \o "k^3-2^5*k;", "r" \o Asg \o "nextprime(4)+k;", "s" \o Asg \o "4; r" \o Asg \o "s*s; s" \o Asg \o "s-k;", "k?1:2; r" \o Asg \o "k?10-k:20-k;", "r" \o Asg \o "Zr(6)*Zr(k);"}
Cmp == { "==", "!=", "<", ">", "<=", ">=" }
RECURSIVE Prods(_, _)
Prods(n, d) ==
  CASE n = "$I" -> IF d = 0 THEN Int0
                   ELSE Int0 \cup { <<"$I", "$_", o, "$_", "$I">> : o \in {"+", "-", "*", "/"} \cup Cmp } \cup
                        { <<"-", "$I">>, <<"(", "$I", ")">>, <<"(", "$I", ")">>, <<"$B", "^", "$E">>, <<"-", "$B", "^", "$E">>, <<"$I", "?", "$I", ":", "$I">>, <<"(", "$I", "?", "$I", ":", "$I", ")", "+", "$I">>,
                          <<"(", "$v", Asg, "$I", ")">>, <<"(", "$v", Asg, "$I", ")", "*", "$I">>, <<"l[", "$i", "]">>, <<"(", "$L", ")[", "$i", "]">>, <<"$L", "$c", "$L">>, <<"nextprime(", "$n", ")">>, <<"M(", "$I", ")">>,
                          <<"-", "$I", "*", "$I">>, <<"$I", "-", "$I", "-", "$I">>, <<"$I", "/", "$I", "*", "$I">>, <<"$I", "$c", "$I", "$c", "$I">>, <<"1", "+", "$v", Asg, "$I">> }
    [] n = "$B" -> { <<"2">>, <<"3">>, <<"10">>, <<"a">>, <<"(", "$I", ")">> }
    [] n = "$E" -> { <<"0">>, <<"1">>, <<"2">>, <<"3">>, <<"5">>, <<"2^2">>, <<"2^0^2">>, <<"3^1^2">>, <<"(1+1)">> }
    [] n = "$c" -> { <<o>> : o \in Cmp }
    [] n = "$i" -> { <<"0">>, <<"1">>, <<"2">>, <<"-1">>, <<"1+0">>, <<"3">>, <<"4294967296">>, <<"a">> }
    [] n = "$n" -> { <<"0">>, <<"1">>, <<"2">>, <<"-5">>, <<"13">>, <<"65536">>, <<"[4]">> }
    [] n = "$v" -> { <<"a">>, <<"b">>, <<"c">> }
    [] n = "$l" -> { <<"l">>, <<"m">> }
    [] n = "$L" -> LET leaf == { <<"l">>, <<"m">>, <<"[1,2]">>, <<"[0, 0, 1]">>, <<"[[1], 2]">>, <<"[3]">>, <<"[[1,2],[3]]">> } IN
                   IF d = 0 THEN leaf
                   ELSE leaf \cup { <<"[", "$I", "]">>, <<"[", "$I", ",", "$_", "$I", "]">>, <<"[", "$L", ",", "$I", "]">>, <<"[", "$I", ",", "$L", ",", "$I", "]">>, <<"$L", "+", "$L">>, <<"$L", "*", "$L">>, <<"$L", "-", "$I">>, <<"$I", "-", "$L">>, <<"$I", "*", "$L">>,
                                    <<"-", "$L">>, <<"(", "$L", ")">>, <<"$L", "/", "$I">>, <<"$K", "^", "$E">>, <<"$I", "?", "$L", ":", "$L">>, <<"(", "$l", Asg, "$L", ")">>, <<"(", "$l", Asg, "$L", ")", "*", "$I">> }
    [] n = "$K" -> { <<"l">>, <<"m">>, <<"[1,1]">>, <<"[[0,1],1]">>, <<"[2,0,3]">> }
    \* layout
    [] n = "$_" -> { <<"">>, <<"">>, <<" ">>, <<"  ">>, <<"\t">>, <<"/* c */">>, <<" /* 1;2 **/ ">> } \cup (IF Easy THEN { <<"/* a\n b */">>, <<" /* **\n\n*/ ">> } ELSE { <<"\n">>, <<" # x; y := 1\n">>, <<"/* a\n b */\n">> })
    [] n = "$;" -> IF Easy THEN { <<"\n">>, <<"\n">>, <<";">>, <<" \n">>, <<" # done\n">>, <<"\n\n">> } ELSE { <<";">>, <<";\n">>, <<" ;\n">>, <<"; # z\n">>, <<"\n;\n">>, <<";/* w */ ">> }
    \* statements over integers and lists
    [] n = "$S" -> { <<"$I", "$;">>, <<"$I", "$;">>, <<"$L", "$;">>, <<"$v", Asg, "$I", "$;">>, <<"$v", Asg, "$v", Asg, "$I", "$;">>, <<"$l", Asg, "$L", "$;">>, <<"$v", Asg, "$I", "$c", "$I", "$;">>, <<"$v", Asg, "$I", "?", "$I", ":", "$I", "$;">>,
                     <<"a", "$;", "b", "$;", "c", "$;">>, <<"l", "$;", "m", "$;">>, <<"-", "$L", "$;">>, <<"[", "$I", ",", "$L", "]", "$;">> }
    \* functions, errors, values that are not elements
    [] n = "$F" -> { <<"define f(", "$p", ") {", "$;b", "}", "$nl", "$call", "$;", "r", "$;", "a", "$;">>, <<"$call", "$;", "r", "$;">>, <<"$x", "$;">>, <<"$x", "$;">>, <<"$x", "$;">>, <<"r", Asg, "$x", "$;", "r", "$;">>, <<"type(", "$y", ")", "$;">>, <<"$v", Asg, "$I", "$;">>,
                     <<"q", Asg, "$fn", "$;", "q", "$;", "q(", "$y", ")", "$;">>, <<"$long", "$;">>, <<"define ", "$long", "(", "$p", "){}", "$nl", "$long", "$;">>, <<"define g(){ define h(k) { r", Asg, "k+1; } h(3); }", "$nl", "g()", "$;", "r", "$;", "h(6)", "$;", "r", "$;">>,
                     <<"define g(a,b){ c", Asg, "a-b; a", Asg, "b; }", "$nl", "g(b,a)", "$;", "a", "$;", "b", "$;", "c", "$;">>, <<"define g(s, t){ r", Asg, "s(t); }", "$nl", "g(", "$fn", ",", "$y", ")", "$;", "r", "$;">> }
                   \cup { << "define f(k) { ", l, " }", "$nl", "f(2)", "$;", "r", "$;", "f(", "$I", ")", "$;", "r", "$;", "f(2)", "$;", "r", "$;">> :
                            l \in Bodies }
                   \cup { << q[1], Asg, "$I", "$;", q[2], Asg, "$I", "$;", q[1], "$;", q[2], "$;", "define ", q[1], "(", q[2], ") {}", "$nl", q[1], "(8)", "$;", q[2], "$;">> : q \in Twins }
    [] n = "$p" -> { <<"">>, <<"a">>, <<"a, b">>, <<"u,v,a">>, <<"a,a">>, <<"b,a">> }
    [] n = "$;b" -> IF d <= 1 THEN { <<"">>, <<"r", Asg, "$I", ";">> } ELSE { <<"">>, <<"r", Asg, "$I", ";">>, <<"a", Asg, "$I", "; ", "$;b">>, <<"$I", "; ", "$;b">>, <<"r", Asg, "$y", "; ", "$;b">>, <<"$x0", "; ", "$;b">> }
    [] n = "$nl" -> IF Easy THEN { <<"">>, <<" ">> } ELSE { <<"">>, <<" ">>, <<"\n">> }
    [] n = "$call" -> { <<"f()">>, <<"f(", "$y", ")">>, <<"f(", "$y", ",", "$y", ")">>, <<"f(", "$y", ",", "$y", ",", "$y", ")">>, <<"f(a,b)">>, <<"f(b, a)">>, <<"f(a", Asg, "5, a)">> }
    [] n = "$fn" -> { <<"type">>, <<"nextprime">>, <<"f">>, <<"M">>, <<"CHECK">>, <<"order">> }
    [] n = "$y" -> { <<"$I">>, <<"$L">>, <<"undef">>, <<"f">>, <<"type">>, <<"r">>, <<"1/0">>, <<"Zr(3)">>, <<"type(", "$I", ")">> }
    [] n = "$x0" -> { <<"undef">>, <<"undef2 + 1">>, <<"1 + undef">>, <<"-type">>, <<"type + 1">>, <<"(a", Asg, "1) + undef">>, <<"undef + (a", Asg, "2)">>, <<"[1, undef]">>, <<"[type]">>, <<"undef ? 1 : 2">>, <<"type ? 1 : 2">>, <<"nextprime(1, 2)">>, <<"nextprime()">>, <<"rnd(3)">>, <<"rnd(undef)">>, <<"order(3)">>, <<"pairing(1, Zr)">>, <<"pairing(type, 1)">>, <<"zmod(Zr)">>, <<"poly(3)">>, <<"extend(3, 4)">>, <<"extend(Zr)">>, <<"extend(Zr, Zr)">>, <<"CHECK(type)">>, <<"CHECK(", "$I", "!= undef)">>, <<"M", Asg, "3">>, <<"rnd", Asg, "a", Asg, "4">>, <<"type", Asg, "1">>, <<"init_pairing_a(1)">>, <<"Zr()">>, <<"Zr(1, 2)">>, <<"Zr(type)">>, <<"M(undef)">>, <<"(", "$I", ")(", "$I", ")">>, <<"undef(3)">>, <<"f">>, <<"type">>, <<"nextprime">>, <<"a(1)">>, <<"init_pairing_a">>, <<"type(", "$y", ") + 1">>, <<"Zr(", "$I", ")">>, <<"M(Zr(", "$I", "))">>, <<"GT(1)">>, <<"G1(0)">>, <<"a", Asg, "undef">>, <<"1[0]">>, <<"a[0]">>, <<"f[0]">> }
    [] n = "$x" -> Prods("$x0", d) \cup { <<"[f(1), 2]">>, <<"f() ? 1 : 2">>, <<"1 ? f(2) : 3">>, <<"a", Asg, "f(1)">> }
    [] n = "$long" -> { <<"a_rather_long_name_of_a_variable_that_nobody_ever_defined_0123456789">>, <<"A_name_of_exactly_sixty_one_characters_is_the_longest_to_fit_">>, <<"Zr_but_not_the_field">>, <<"definex">>, <<"_">> }
    \* broken statements
    [] n = "$Q" -> { <<"1 +", "$;">>, <<"(1", "$;">>, <<"1 2", "$;">>, <<"[]", "$;">>, <<"[1,]", "$;">>, <<"a[1][2]", "$;">>, <<"1(2)", "$;">>, <<"[1,2][0]", "$;">>, <<"a ! b", "$;">>, <<")", "$;">>, <<"1 ? 2", "$;">>, <<"define (x) {}", "$;">>, <<"define f x", "$;">>,
                     <<"define f(1){}", "$;">>, <<"define f(a,){}", "$;">>, <<"define f(a) {1+}", "$;">>, <<"define f(a) { b", Asg, "a }", "$;">>, <<"a.b", "$;">>, <<"3", Asg, "4", "$;">>, <<"(a)", Asg, "4", "$;">>, <<"a", Asg, "$;">>, <<"& 7", "$;">>, <<"5 % 3", "$;">>, <<"a == ", "$;">>, <<"}", "$;">>,
                     <<"a = 3", "$;">>, <<"$;">>, <<"\"x\"", "$;">>, <<"1,2", "$;">>, <<"f(1,,2)", "$;">>, <<"a := := 3", "$;">>, <<"- ", "$;">>, <<"* 3", "$;">> }
    [] n = "$U" -> { <<"$S">>, <<"$S">>, <<"$Q">>, <<"$F">> }
    \* prime fields, extensions, polynomials
    [] n = "$Z" -> IF d = 0 THEN { <<"x">>, <<"y">>, <<"A(", "$k", ")">> }
                   ELSE { <<"x">>, <<"A(", "$I", ")">> } \cup { <<"$Z", o, "$Z">> : o \in {"+", "-", "*"} } \cup { <<"-", "$Z">>, <<"(", "$Z", ")">>, <<"$Z", "/", "$u">>, <<"inv(", "$u", ")">>, <<"(", "$Z", ")^", "$e">>, <<"-x^2">>, <<"(x", Asg, "$Z", ")">>, <<"(y", Asg, "$Z", ")*", "$Z">>, <<"(x == y ? x : y)">> }
    [] n = "$k" -> { <<"0">>, <<"1">>, <<"2">>, <<"-1">>, <<"100">>, <<"-1000003">>, <<"[4,5]">>, <<"2^70">>, <<"p">>, <<"p-1">> }
    [] n = "$u" -> { <<"A(2)">>, <<"A(-1)">>, <<"A(5)">>, <<"A(p-1)">> }
    [] n = "$e" -> { <<"0">>, <<"1">>, <<"2">>, <<"x">>, <<"(p-1)">>, <<"p">>, <<"2^65">>, <<"Zr(-1)">> }
    [] n = "$w" -> IF d = 0 THEN { <<"w">>, <<"X([1,2])">>, <<"X(3)">>, <<"X([0,1,1])">>, <<"X(0)">> }
                   ELSE { <<"w">>, <<"X(", "$L", ")">>, <<"X([", "$I", ",", "$I", "])">> } \cup { <<"$w", o, "$w">> : o \in {"+", "-", "*"} } \cup { <<"-", "$w">>, <<"$w", "/X([1,2])">>, <<"inv(X([3,4]))">>, <<"(", "$w", ")^", "$e">>, <<"(w", Asg, "$w", ")">>, <<"(w", Asg, "$w", ") - ", "$w">> }
    [] n = "$o" -> IF d = 0 THEN { <<"k">>, <<"R([1,2,3])">>, <<"R([0,0,0,1])">>, <<"R(5)">>, <<"R([1,0])">> }
                   ELSE { <<"k">>, <<"R(", "$L", ")">> } \cup { <<"$o", o, "$o">> : o \in {"+", "-", "*"} } \cup { <<"-", "$o">>, <<"(R([1,1]))^", "$E">>, <<"(k", Asg, "$o", ")">> }
    [] n = "$A" -> { <<"$Z", "$;">>, <<"$Z", "$;">>, <<"$Z", "==", "$Z", "$;">>, <<"M(", "$Z", ")", "$;">>, <<"x", Asg, "$Z", "$;", "y", "$;", "x", "$;">>, <<"y", Asg, "sqrt((", "$Z", ")^2)", "$;", "y", "$;">>, <<"x", Asg, "rnd(A)", "$;", "x", "$;">>, <<"rnd(A)", "$;">>, <<"order(A)", "$;">>,
                     <<"$w", "$;">>, <<"$w", "$;">>, <<"w", Asg, "$w", "$;", "w", "$;">>, <<"(", "$w", ")[", "$i", "]", "$;">>, <<"w[0]+w[1]", "$;">>, <<"w", Asg, "rnd(X)", "$;", "w", "$;">>, <<"order(X)", "$;">>, <<"$w", "!=", "$w", "$;">>, <<"type(", "$Z", ")", "$;">>, <<"X(M(w[0]))", "$;">>,
                     <<"$o", "$;">>, <<"$o", "$;">>, <<"k", Asg, "$o", "$;", "k", "$;">>, <<"k[", "$i", "]", "$;">>, <<"$o", "==", "$o", "$;">>, <<"CHECK(", "$Z", "==", "$Z", ")", "$;">>, <<"[M(", "$Z", "), 1]", "$;">>, <<"x[0]", "$;">>, <<"Z(", "$I", ") + Z(", "$I", ")", "$;">>, <<"M(Z(", "$I", "))", "$;">> }
    [] n = "$fields" -> { <<"p", Asg, "7", "$;", "A", Asg, "zmod(p)", "$;", "X", Asg, "extend(A, [1, 0, 1])", "$;">>, <<"p", Asg, "1000003", "$;", "A", Asg, "zmod(p)", "$;", "X", Asg, "polymod((poly(A))([1, 0, 1]))", "$;">>,
                          <<"p", Asg, "nextprime(100)", "$;", "A", Asg, "zmod(p)", "$;", "X", Asg, "extend(A, [-2, 0, 0, 0, 1])", "$;">>, <<"p", Asg, "170141183460469231731687303715884105727", "$;", "A", Asg, "zmod(p)", "$;", "X", Asg, "extend(A, [1, 0, 1])", "$;">>,
                          <<"p", Asg, "order(Zr)", "$;", "A", Asg, "Zr", "$;", "X", Asg, "extend(zmod(7), [3, 1, 1])", "$;">> }
    \* pairing groups
    [] n = "$P" -> IF d = 0 THEN { <<"g">>, <<"h">>, <<"G1(0)">> }
                   ELSE { <<"g">>, <<"$P", "*", "$P">>, <<"$P", "+", "$P">>, <<"$P", "-", "$P">>, <<"$P", "/", "$P">>, <<"-", "$P">>, <<"inv(", "$P", ")">>, <<"(", "$P", ")^", "$q">>, <<"(h", Asg, "$P", ")">>, <<"(h", Asg, "$P", ")*g">>, <<"G1([M(g[0]), M(g[1])])">>, <<"G1([1,2])">> }
    [] n = "$q" -> { <<"0">>, <<"1">>, <<"2">>, <<"n">>, <<"-n">>, <<"(n*n)">>, <<"order(G1)">>, <<"M(n)">>, <<"Zr(-1)">>, <<"2^3^2">> }
    [] n = "$T" -> IF d = 0 THEN { <<"t">>, <<"GT(1)">> }
                   ELSE { <<"t">>, <<"$T", "*", "$T">>, <<"$T", "+", "$T">>, <<"$T", "/", "$T">>, <<"-", "$T">>, <<"inv(", "$T", ")">>, <<"(", "$T", ")^", "$q">>, <<"(t", Asg, "$T", ")">>, <<"pairing(", "$P", ",j)">>, <<"pairing(g, j^", "$q", ")">> }
    [] n = "$G" -> { <<"$P", "$;">>, <<"$P", "$;">>, <<"$T", "$;">>, <<"$T", "$;">>, <<"pairing(g^", "$q", ",j) == pairing(g,j)^", "$q", "$;">>, <<"pairing(", "$P", ",j)", "$;">>, <<"h", Asg, "$P", "$;", "h", "$;", "g", "$;">>, <<"$P", "==", "$P", "$;">>, <<"n", Asg, "rnd(Zr)", "$;", "n", "$;">>, <<"n", Asg, "n*n+Zr(", "$I", ")", "$;", "n", "$;">>,
                     <<"g[", "$i", "]", "$;">>, <<"order(G2)", "$;">>, <<"t", Asg, "rnd(GT)", "$;", "t", "$;">>, <<"og", Asg, "g", "$;", "oj", Asg, "j", "$;", "on", Asg, "n", "$;", "ot", Asg, "t", "$;", "$init", "$;", "$draw", "on+on", "$;", "og*og", "$;", "pairing(og,oj)", "$;", "ot*ot", "$;">>, <<"type(", "$P", ")", "$;">> }
    [] n = "$init" -> { <<"init_pairing_a()">>, <<"init_pairing_d()">>, <<"init_pairing_d()">>, <<"init_pairing_g()">> }
    [] n = "$draw" -> { <<"g", Asg, "rnd(G1)", "$;", "g", "$;", "h", Asg, "random(G1)", "$;", "h", "$;", "j", Asg, "rnd(G2)", "$;", "j", "$;", "n", Asg, "rnd(Zr)", "$;", "n", "$;", "t", Asg, "pairing(g,j)", "$;">> }
    \* whole programs: first the variables
    [] n = "$ints" -> { <<"a", Asg, "5", "$;", "b", Asg, "-3", "$;", "c", Asg, "100000000000000000000", "$;", "l", Asg, "[1,2,3]", "$;", "m", Asg, "[[0,1],4]", "$;">>, <<"a", Asg, "0", "$;", "b", Asg, "2", "$;", "c", Asg, "-1", "$;", "l", Asg, "[0,1]", "$;", "m", Asg, "[2,[3,1],0]", "$;">> }
    [] n = "$end" -> { <<"\n">>, <<"a", "$;">>, <<"exit(3)", "$;", "1", "$;">>, <<"exit(", "$I", ")", "$;">>, <<"CHECK(1)", "$;", "2", "$;">>, <<"CHECK(0)", "$;", "2", "$;">>, <<"CHECK(a == a)", "$;">>, <<"1 + ">>, <<"7", Eol>>, <<"a + b">>, <<"# x\n">>, <<"/* open">> }
    [] n = "$ints2" -> { <<"$ints">> }
    [] n = "$.int" -> { <<"$ints">> }
    [] n = "$.fun" -> { <<"$ints">> }
    [] n = "$.bad" -> { <<"$ints">> }
    [] n = "$.fld" -> { <<"$ints", "$fields", "x", Asg, "A(3)", "$;", "y", Asg, "A(-2)", "$;", "w", Asg, "X([1,2])", "$;", "R", Asg, "poly(A)", "$;", "k", Asg, "R([1,2,1])", "$;">> }
    [] n = "$.grp" -> { <<"$ints", "$draw">> }
Body == [x \in {"$.int", "$.fun", "$.bad", "$.fld", "$.grp"} |-> CASE x = "$.int" -> "$S" [] x = "$.fun" -> "$F" [] x = "$.bad" -> "$U" [] x = "$.fld" -> "$A" [] x = "$.grp" -> "$G"]

VARIABLES done, rest, left        \* text so far; the sentential form after it: <<symbol, depth>>; statements still to come
IsNT(x) == Len(x) > 1 /\ SubSeq(x, 1, 1) = "$"
RECURSIVE Shift(_, _)
Shift(t, f) == IF f = <<>> \/ IsNT(f[1][1]) THEN <<t, f>> ELSE Shift(t \o f[1][1], Tail(f))
Emit == PrintT("IP " \o ToJson([text |-> done]))
Init == done = "" /\ left = Stmts /\ \E x \in Start : rest = << <<x, Depth>>, <<"$$", 0>> >> /\ TRUE
Sub(p, d) == [k \in 1..Len(p) |-> <<p[k], d>>]
Next ==
  /\ rest # <<>>
  /\ LET x == rest[1][1] d == rest[1][2] go(f) == LET r == Shift(done, f) IN done' = r[1] /\ rest' = r[2] IN
     IF x = "$$" THEN Emit /\ rest' = <<>> /\ UNCHANGED <<done, left>>
     ELSE IF SubSeq(x, 1, 2) # "$."
     THEN \E p \in Prods(x, d) : go(Sub(p, IF d > 0 THEN d - 1 ELSE 0) \o Tail(rest)) /\ UNCHANGED left
     ELSE \E p \in Prods(x, d) : left' = 0 /\ go(Sub(p, Depth) \o [k \in 1..Stmts |-> <<Body[x], Depth>>] \o << <<"$end", Depth>> >> \o Tail(rest))
=============================================================================
