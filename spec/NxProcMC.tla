------------------------------ MODULE NxProcMC -------------------------------
EXTENDS NxProc, Json, IOUtils
MaxProcs == atoi(IOEnv.VP_PROCS)
MaxDeps == atoi(IOEnv.VP_DEPS)
Es == {<<"entry", 1>>, <<"entry", 2>>}
Ns == {<<"p", 0>>, <<"q", 1>>}
Pars == {1, 2}
B == {TRUE, FALSE}
VARIABLES s, act, res
Init == s = Init0 /\ act = [op |-> "init"] /\ res = <<>>
DepSeqs(t) == {<<>>} \cup {<<p>> : p \in DOMAIN t.node} \cup (IF MaxDeps < 2 THEN {} ELSE {<<p, q>> : p \in DOMAIN t.node, q \in DOMAIN t.node})
Ops(t) ==
  (IF Cardinality(t.ents) < 2 THEN {[op |-> "newentry", like |-> <<>>]} ELSE {})
  \cup {[op |-> "group", e |-> e, n |-> n] : e \in t.ents, n \in {x \in Ns : \A y \in t.ents : ~Has(t, y, x)}}
  \cup {[op |-> "remove", e |-> p[1], n |-> p[2]] : p \in DOMAIN t.node}
  \cup {[op |-> "rename", e |-> p[1], n |-> p[2], m |-> m] : p \in DOMAIN t.node, m \in {<<"p", 1>>, <<"q", 1>>}}
  \cup {[op |-> "find", e |-> e, n |-> n, par |-> x, deps |-> d, all |-> b] :
          e \in t.ents \cup {<<>>}, n \in Ns \cup {<<>>}, x \in Pars, d \in DepSeqs(t), b \in B}
  \cup {[op |-> "proc", e |-> e, n |-> n, par |-> x, deps |-> d, all |-> b, noinc |-> c] :
          e \in t.ents, n \in Ns, x \in Pars, d \in DepSeqs(t), b \in B, c \in B}
Dom(t, o) == o.op = "rename" => ~Has(t, o.e, o.m)
Next == \E o \in Ops(s) : Dom(s, o) /\ \E r \in Outcomes(s, o) :
          /\ Cardinality(DOMAIN r.t.node) <= MaxProcs
          /\ s' = r.t /\ res' = r.res /\ act' = o
Spec == Init /\ [][Next]_<<s, act, res>>
View == s
RECURSIVE Depth(_)
Depth(id) == IF "at" \in DOMAIN id THEN 0 ELSE 1 + Max({0} \cup {Depth(id.deps[k]) : k \in DOMAIN id.deps})
Small == \A p \in DOMAIN s.node : p[2][2] < 3 /\ (IsProc(s, p) => Depth(s.node[p].id) <= 2 /\ Len(s.node[p].deps) <= MaxDeps)
Inv == Inv0(s)
Rr == [res |-> res', t |-> s']
Props == [][Answers(s, act', Rr) /\ Untouched(s, act', Rr) /\ Once(s, act', Rr)]_<<s, act, res>>
==============================================================================
