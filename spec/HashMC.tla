------------------------------- MODULE HashMC --------------------------------
(* Same is an equality, blind for the order in sets and maps and for nothing   *)
(* else: on all small trees                                                    *)
EXTENDS Hash
Leaf == {<<"none">>, <<"num", "1">>, <<"num", "2">>, <<"str", "1">>, <<"empty", "list">>}
Few == {<<"num", "1">>, <<"num", "2">>, <<"str", "1">>}
Keys == {<<"num", "1">>, <<"str", "1">>}
Up(T, Small) ==
  {<<"seq", <<x>>>> : x \in T} \cup {<<"seq", <<x, y>>>> : x \in T, y \in Small}
  \cup {<<"set", s>> : s \in {<<x>> : x \in Few} \cup ({<<x, y>> : x \in Few, y \in Few} \ {<<x, x>> : x \in Few})}
  \cup {<<"map", <<<<k, x>>>>>> : k \in Keys, x \in T}
  \cup {<<"map", p>> : p \in {<<<<k, x>>, <<j, y>>>> : k \in Keys, j \in Keys, x \in T, y \in Small} \ {<<<<k, x>>, <<k, y>>>> : k \in Keys, x \in T, y \in Small}}
  \cup {<<"qty", x, u>> : x \in {y \in T : y[1] \in {"num", "seq"}}, u \in {"mm", "s"}}
D1 == Leaf \cup Up(Leaf, Few)
D2 == D1 \cup Up({x \in D1 : x[1] \in {"seq", "map"}}, Few)
VARIABLES a, b
Init == a \in D2 /\ b \in D1
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Swap(x) == IF x[1] \in {"seq", "set", "map"} /\ Len(x[2]) = 2 THEN <<x[1], <<x[2][2], x[2][1]>>>> ELSE x
Order == LET s == Swap(a)
         IN Same(a, s) <=> (a[1] # "seq" \/ Len(a[2]) # 2 \/ Same(a[2][1], a[2][2]))
Equality == Same(a, a) /\ (Same(a, b) = Same(b, a)) /\ (Same(a, b) => (b = a \/ b = Swap(a)) \/ (\E k \in 1..2 : a[1] \in {"seq", "map"} /\ k \in DOMAIN a[2]))
Nested == ~Same(<<"seq", <<a>>>>, a)
Part == ~Same(a, b) => /\ ~Same(<<"seq", <<a, b>>>>, <<"seq", <<b, b>>>>)
                       /\ ~Same(<<"seq", <<b, a>>>>, <<"seq", <<b, b>>>>)
                       /\ ~Same(<<"map", <<<<<<"str", "k">>, a>>>>>>, <<"map", <<<<<<"str", "k">>, b>>>>>>)
==============================================================================
