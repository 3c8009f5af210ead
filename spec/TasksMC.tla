------------------------------- MODULE TasksMC -------------------------------
EXTENDS Tasks, Json, IOUtils
Sel == IOEnv.VP_SEL                      \* which tasks and which process count
DS == CASE Sel = "same" -> {1, 2} [] Sel = "deps" -> {1, 3, 4} [] Sel = "names" -> {1, 2, 8}
        [] Sel = "fam" -> {1, 2, 3, 5} [] Sel = "place" -> {1, 6, 3, 7} [] OTHER -> D
PS == IF IOEnv.VP_P = "1" THEN {1} ELSE {1, 2}
MaxDead == atoi(IOEnv.VP_DEAD)
VARIABLES s, act
Init == s = Init0 /\ act = [op |-> "init"]
Nest == 2
Ops(t) == {[op |-> "start", p |-> p, d |-> d] : p \in {q \in PS : Len(t.run[q]) < Nest}, d \in DS}
   \cup UNION {IF t.run[p] = <<>> THEN {}
               ELSE (IF Top(t, p).ph < 2 THEN {[op |-> "step", p |-> p]} ELSE {})
                    \cup {[op |-> "end", p |-> p, how |-> h] :
                            h \in (IF Top(t, p).ph = 2 THEN {"ok"} ELSE {}) \cup {"exc", "term"}}
                    \cup {[op |-> "kill", p |-> p]} : p \in PS}
Next == \E o \in Ops(s) : s' = Step(s, o).t /\ act' = o
Spec == Init /\ [][Next]_<<s, act>>
View == s
Bound == s.dead <= MaxDead
Emit == s'.dead <= MaxDead /\ (IOEnv.VP_EMIT = "1" => PrintT(ToJson([f |-> s, o |-> act', t |-> s'])))
Inv == Unique(s) /\ Causal(s) /\ Default(s)
\* an output is never changed or removed; only the successful end of a body makes one,
\* and with its dependencies in place
Monotone == s.outs \subseteq s'.outs
Appear == (s'.outs # s.outs) => /\ act'.op = "end" /\ act'.how = "ok"
                                /\ Cardinality(s'.outs \ s.outs) = 1
                                /\ Top(s, act'.p).ph = 2
Fails == (act'.op = "end" /\ act'.how # "ok") => s'.outs = s.outs /\ s'.dflt = s.dflt
                                                 /\ s'.dead = s.dead
Props == [][Monotone /\ Appear /\ Fails]_<<s, act>>
==============================================================================
