------------------------------- MODULE GenGen -------------------------------
(* Requests made of the parameter generators: sizes for each type, CM         *)
(* searches over discriminants with a limit, a result at which the callback   *)
(* stops the search and one it turns into parameters, and class polynomials.  *)
EXTENDS Gen, Json
CONSTANTS SizesA, Orders, SizesE, SizesF, SizesI, SearchTo, Limits, Stops, Gens, MaxD
VARIABLES done
Emit(r) == PrintT("GN " \o ToJson(r))
Init == done = FALSE
Ds(n) == {D \in 3..n : Fundamental(D)}
Next == /\ ~done /\ done' = TRUE
        /\ \A s \in SizesA : Emit(<<"gen", "a", s[1], s[2]>>)
        /\ \A n \in Orders : Emit(<<"gen", "a1", n, 0>>)
        /\ \A s \in SizesE : Emit(<<"gen", "e", s[1], s[2]>>)
        /\ \A s \in SizesF : Emit(<<"gen", "f", s, 0>>)
        /\ \A s \in SizesI : Emit(<<"gen", "i", s, 0>>)
        /\ \A k \in {6, 10}, D \in Ds(SearchTo), l \in Limits, s \in Stops, g \in Gens : Emit(<<"cmsearch", k, D, l, s, g, 0>>)
        /\ \A D \in Ds(MaxD) : Emit(<<"hilbert", D, 2>>)
=============================================================================
