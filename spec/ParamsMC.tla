------------------------------- MODULE ParamsMC -----------------------------
EXTENDS Params, Json, IOUtils
Cfg == IOEnv.VP_CFG           \* "struct" or "data"
Max == atoi(IOEnv.VP_MAX)     \* nodes
K == IF Cfg = "data" THEN {"x"} ELSE {}
V == {1, 2}
B == {TRUE, FALSE}
VARIABLES s, act
Chain3 == [par |-> <<0, 1, 2>>, kids |-> <<<<2>>, <<3>>, <<>>>>,
           dat |-> <<Empty, Empty, Empty>>, snap |-> [i \in 1 .. 3 |-> <<"never">>], n |-> 3]
Fork3 == [Chain3 EXCEPT !.par = <<0, 1, 1>>, !.kids = <<<<2, 3>>, <<>>, <<>>>>]
Init == s \in {Chain3, Fork3} /\ act = [op |-> "init"]
Ops(t) ==
  LET N == Nodes(t) IN
  (IF Cfg = "struct"
   THEN {[op |-> "branch", x |-> x] : x \in N}
     \cup {[op |-> "before", x |-> x, m |-> m, single |-> b] : x \in N, m \in N \cup {0}, b \in B}
     \cup {[op |-> "after", x |-> x, m |-> m, single |-> b] : x \in N, m \in N \cup {0}, b \in B}
     \cup {[op |-> "remove", x |-> x, single |-> b] : x \in N, b \in B}
   ELSE {[op |-> "set", x |-> x, k |-> k, v |-> v] : x \in N, k \in K, v \in V}
     \cup {[op |-> "updaterec", x |-> x, k |-> k, v |-> v] : x \in N, k \in K, v \in V}
     \cup {[op |-> "del", x |-> x, k |-> k] : x \in N, k \in K}
     \cup {[op |-> "dellocal", x |-> x, k |-> k] : x \in N, k \in K}
     \cup {[op |-> "reset", x |-> x, rec |-> b] : x \in N, b \in B})
  \cup {[op |-> "parent", x |-> x, m |-> m] : x \in N, m \in N \cup {0}}
Next == \E o \in Ops(s) : s' = PStep(s, o) /\ act' = o
Spec == Init /\ [][Next]_<<s, act>>
View == s
Bound == s.n <= Max /\ TLCGet("level") <= atoi(IOEnv.VP_DEPTH)
Emit == s.n <= Max /\ TLCGet("level") <= atoi(IOEnv.VP_DEPTH) /\ PrintT(ToJson([f |-> s, o |-> act', t |-> s', show |-> Show(s')]))
Inv == Forest(s)

\* nearest definition wins; a key is seen iff some ancestor defines it
Lookup == \A x \in Nodes(s) :
            /\ \A k \in DOMAIN s.dat[x] : Full(s, x)[k] = s.dat[x][k]
            /\ s.par[x] # 0 => \A k \in Keys(s, s.par[x]) \ DOMAIN s.dat[x] :
                                    Full(s, x)[k] = Full(s, s.par[x])[k]
\* moving nodes never changes what a node defines itself; values go only by del/set
Locals == act'.op \in {"branch", "parent", "before", "after", "remove", "reset"} =>
             \A x \in Nodes(s) : s'.dat[x] = s.dat[x]
SetSeen == act'.op \in {"set", "updaterec"} => Full(s', act'.x)[act'.k] = act'.v
Inserted == /\ (act'.op = "before" /\ act'.m # act'.x) =>
                  s'.par[act'.x] = IF act'.m = 0 THEN s.n + 1 ELSE act'.m
            /\ (act'.op = "after" /\ act'.m # act'.x) =>
                  s'.par[IF act'.m = 0 THEN s.n + 1 ELSE act'.m] = act'.x
            /\ (act'.op = "remove" /\ act'.single) => s'.par[act'.x] = 0 /\ s'.kids[act'.x] = <<>>
Props == [][Locals /\ SetSeen /\ Inserted]_<<s, act>>
=============================================================================
