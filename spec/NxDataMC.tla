------------------------------ MODULE NxDataMC -------------------------------
EXTENDS NxData, Json, IOUtils
Two == IOEnv.VP_TWO = "1"
Gs == IF Two THEN G ELSE {"A"}
Ns == IF Two THEN {"u", "v"} ELSE {"u", "v", "w"}
Shapes == {<<2, 3>>, <<3, 2>>}
AxSets == {<<[n |-> "y", v |-> <<2, 1>>], [n |-> "x", v |-> <<3, 1>>]>>,
           <<[n |-> "x", v |-> <<3, 1>>], [n |-> "y", v |-> <<2, 1>>]>>,
           <<[n |-> "y", v |-> <<2, 2>>], [n |-> "x", v |-> <<3, 1>>]>>,
           <<[n |-> "y", v |-> <<>>], [n |-> "x", v |-> <<>>]>>,
           <<[n |-> "y", v |-> <<2, 1>>], [n |-> "x", v |-> <<>>]>>}
VARIABLES s, act, res
Init == s = Init0 /\ act = [op |-> "init"] /\ res = ""
Ops(t) == UNION {
    {[op |-> "add", g |-> g, n |-> n, shape |-> h] : n \in Ns, h \in Shapes}
    \cup {[op |-> "default", g |-> g, n |-> n] : n \in Ns}
    \cup {[op |-> "remove", g |-> g, n |-> n] : n \in Names(t, g) \ (IF g = "A" THEN t.lnk["B"] ELSE {})}
    \cup {[op |-> "sort", g |-> g, other |-> x] : x \in (IF Two THEN {"", "A", "B"} \ {g} ELSE {""})}
    \cup {[op |-> "axes", g |-> g, axs |-> a] : a \in AxSets}
    \cup (IF g = "B" THEN {[op |-> "link", g |-> "B", from |-> "A", n |-> n] : n \in Names(t, "A")} ELSE {})
  : g \in Gs}
Next == \E o \in Ops(s) : LET r == NStep(s, o) IN s' = r.t /\ res' = r.res /\ act' = o
Spec == Init /\ [][Next]_<<s, act, res>>
View == s
Emit == IOEnv.VP_EMIT = "1" => PrintT(ToJson([f |-> s, o |-> act', t |-> s', res |-> res']))
Inv == Inv0(s)
\* a refused call changes no signal and no axes attribute
Refused == res' \notin {"ok", "true"} => [s' EXCEPT !.pos = s.pos] = s
Others == \A g \in G \ {act'.g} : s'.sig[g] = s.sig[g] /\ s'.aux[g] = s.aux[g] /\ s'.axes[g] = s.axes[g]
Keep == act'.op # "remove" => \A g \in G : Names(s, g) \subseteq Names(s', g)
NewDefault == (act'.op \in {"add", "link", "default"} /\ res' \in {"ok", "true"}) => s'.sig[act'.g] = act'.n
Props == [][Refused /\ Others /\ Keep /\ NewDefault]_<<s, act, res>>
==============================================================================
