----------------------------- MODULE NxDefaultMC ------------------------------
EXTENDS NxDefault, Json, IOUtils
E1 == <<"a1">>
R1 == <<"a1", "p1", "results">>
Skeleton == << <<E1, "NXentry">>, << <<"a2">>, "NXentry">>, << <<"a1", "p1">>, "NXprocess">>, <<R1, "NXcollection">>,
               <<R1 \o <<"a1">>, "NXdata">>, <<R1 \o <<"a2">>, "NXdata">>,
               << <<"a1", "p2">>, "NXsubentry">>, << <<"a1", "p2", "a1">>, "NXdata">>, << <<"a2", "a1">>, "NXdata">> >>
Start ==
  LET c == {Skeleton[k][1] : k \in DOMAIN Skeleton}
      ds == {Skeleton[k][1] : k \in {j \in DOMAIN Skeleton : Skeleton[j][2] = "NXdata"}}
  IN [cls |-> [p \in c \cup {<<>>} |-> IF p = <<>> THEN "NXroot" ELSE Skeleton[CHOOSE k \in DOMAIN Skeleton : Skeleton[k][1] = p][2]],
      dflt |-> [p \in {} |-> <<>>],
      sig |-> [d \in ds |-> IF d = R1 \o <<"a1">> THEN <<"v", "u">> ELSE IF d = R1 \o <<"a2">> THEN <<"u">> ELSE IF Len(d) = 2 THEN <<"v">> ELSE <<>>]]
VARIABLES s, act
Init == s = Start /\ act = [op |-> "init"]
Ops(t) ==
  {[op |-> "mark", p |-> p] : p \in DOMAIN t.cls \ {<<>>}}
  \cup UNION {{[op |-> "mark", p |-> d \o <<x>>] : x \in Range(t.sig[d])} : d \in DOMAIN t.sig}
  \cup {[op |-> "pick", p |-> p, x |-> x] : p \in {q \in DOMAIN t.cls : t.cls[q] = "NXcollection"}, x \in {"", "u", "v", "w"}}
  \cup {[op |-> "remove", p |-> p] : p \in {q \in DOMAIN t.cls : t.cls[q] = "NXdata"}}
Next == \E o \in Ops(s) : s' = DStep(s, o) /\ act' = o
Spec == Init /\ [][Next]_<<s, act>>
View == s
Props == [][Marked(s, s', act') /\ MarkedSignal(s, s', act') /\ MarkedEntry(s, s', act')
            /\ NothingLost(s, s', act') /\ OtherEntries(s, s', act')]_<<s, act>>
==============================================================================
