----------------------------- MODULE NxDataTrace ------------------------------
(* Judges recorded histories of real NXdata groups: what each call did, what   *)
(* is in the file afterwards and what the code answers.                        *)
EXTENDS NxData, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, l, s
Fn(p) == [k \in {p[j][1] : j \in DOMAIN p} |-> p[CHOOSE j \in DOMAIN p : p[j][1] = k][2]]
Verdict(r, b) ==
  LET t == r.t IN
  IF b.res # r.res THEN "outcome"
  ELSE IF \E g \in G : Fn(b.grp[g].shp) # t.shp[g] THEN "datasets"
  ELSE IF \E g \in G : b.grp[g].sig # t.sig[g] THEN "default-signal"
  ELSE IF \E g \in G : b.grp[g].aux # t.aux[g] THEN "auxiliary-signals"
  ELSE IF \E g \in G : b.grp[g].axes # t.axes[g] THEN "axes"
  ELSE IF Fn(b.pos) # t.pos THEN "positioners"
  ELSE IF \E g \in G : \E k \in DOMAIN t.axes[g] : b.grp[g].axval[k] # t.pos[t.axes[g][k]] THEN "axis-values"
  ELSE IF \E g \in G : b.ask[g].listed # Listed(t, g) THEN "query-signals"
  ELSE IF \E g \in G : b.ask[g].shape # Shape(t, g) THEN "query-shape"
  ELSE IF \E g \in G : b.ask[g].axes # [k \in DOMAIN t.axes[g] |-> <<t.axes[g][k], t.pos[t.axes[g][k]]>>] THEN "query-axes"
  ELSE IF \E g \in G : b.ask[g].axshape # AxesShape(t, g) THEN "query-axes-shape"
  ELSE ""
Init == i = 1 /\ l = 1 /\ s = Init0
Goto(j) == IF j > Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) /\ i' = j /\ l' = 1 /\ s' = s
           ELSE i' = j /\ l' = 1 /\ s' = Init0
Next == /\ i <= Len(Trace)
        /\ LET H == Trace[i].steps IN
           IF l > Len(H) THEN Goto(i + 1)
           ELSE LET r == NStep(s, H[l].op)
                    v == IF "err" \in DOMAIN H[l] THEN "error" ELSE Verdict(r, H[l].obs)
                IN IF v = "" THEN i' = i /\ l' = l + 1 /\ s' = r.t
                   ELSE PrintT(ToJson([bad |-> v, i |-> i, step |-> l, want |-> r])) /\ Goto(i + 1)
Spec == Init /\ [][Next]_<<i, l, s>>
==============================================================================
