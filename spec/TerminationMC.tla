---------------------------- MODULE TerminationMC ----------------------------
EXTENDS Termination, Json, IOUtils, FiniteSets
Max == atoi(IOEnv.VP_MAX)
VARIABLES s, act, ev
Init == s \in {[stk |-> <<>>, h |-> 0, orig |-> x] : x \in {"raise", "return"}} /\ act = [op |-> "init"] /\ ev = <<>>
Ops(t) ==
  (IF Len(t.stk) < Max THEN [op : {"enter"}, td : {"true", "false", "raise"}, re : BOOLEAN, setup : {"ok", "raise", "sig"}] ELSE {})
  \cup (IF t.stk = <<>> THEN {} ELSE {[op |-> "leave"]})
  \cup {[op |-> "exc"], [op |-> "sig"]}
Next == \E o \in Ops(s) : LET r == HStep(s, o) IN s' = r.s /\ ev' = r.ev /\ act' = o
Spec == Init /\ [][Next]_<<s, act, ev>>
View == s
Emit == PrintT(ToJson([f |-> s, o |-> act', t |-> s', ev |-> ev']))
Inv == Handler(s) /\ (s.stk = <<>> => s.h = 0)
\* every block is torn down exactly once: when it goes from live to spent or leaves live
Live(t) == {k \in DOMAIN t.stk : ~t.stk[k].spent}
Down == {ev'[i].k : i \in {j \in DOMAIN ev' : ev'[j].e = "teardown"}}
Once == /\ \A i, j \in DOMAIN ev' : (i # j /\ ev'[i].e = "teardown" /\ ev'[j].e = "teardown") => ev'[i].k # ev'[j].k
        /\ \A k \in Live(s) : (k \notin Live(s')) => k \in Down
        /\ \A k \in Down : k \in Live(s) \/ act'.op = "enter"
\* a signal in a program whose blocks all resend reaches the original handler
Resent == (act'.op = "sig" /\ \A k \in Live(s) : s.stk[k].re /\ s.stk[k].td # "raise") =>
             Cardinality({j \in DOMAIN ev' : ev'[j].e = "orig"}) = 1
Props == [][Once /\ Resent]_<<s, act, ev>>
==============================================================================
