---------------------------- MODULE NxDefaultTrace ----------------------------
EXTENDS NxDefault, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, l, s
Fn(p) == [k \in {p[j][1] : j \in DOMAIN p} |-> p[CHOOSE j \in DOMAIN p : p[j][1] = k][2]]
Live(f) == [k \in {j \in DOMAIN f : f[j] # <<>>} |-> f[k]]
Verdict(t, b) ==
  IF Fn(b.cls) # t.cls THEN "nodes"
  ELSE IF Fn(b.sig) # t.sig THEN "signals"
  ELSE IF Live(Fn(b.dflt)) # Live(t.dflt) THEN "default-attributes"
  ELSE IF b.default # Default(t) THEN "default-plot"
  ELSE ""
Init == i = 1 /\ l = 1 /\ s = Init0
Goto(j) == IF j > Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) /\ i' = j /\ l' = 1 /\ s' = s
           ELSE i' = j /\ l' = 1 /\ s' = Init0
Next == /\ i <= Len(Trace)
        /\ LET H == Trace[i].steps IN
           IF l > Len(H) THEN Goto(i + 1)
           ELSE LET t == DStep(s, H[l].op)
                    v == IF "err" \in DOMAIN H[l] THEN "error" ELSE IF H[l].obs = <<>> THEN "" ELSE Verdict(t, H[l].obs)
                IN IF v = "" THEN i' = i /\ l' = l + 1 /\ s' = t
                   ELSE PrintT(ToJson([bad |-> v, i |-> i, step |-> l, want |-> [default |-> Default(t)]])) /\ Goto(i + 1)
Spec == Init /\ [][Next]_<<i, l, s>>
==============================================================================
