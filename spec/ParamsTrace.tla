----------------------------- MODULE ParamsTrace ----------------------------
(* Judges recorded histories of real parameter trees; each record is a whole   *)
(* history, every step with what the user sees of the forest afterwards.       *)
EXTENDS Params, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, l, s
Start(shape) == [par |-> IF shape = 1 THEN <<0, 1, 2>> ELSE <<0, 1, 1>>,
                 kids |-> IF shape = 1 THEN <<<<2>>, <<3>>, <<>>>> ELSE <<<<2, 3>>, <<>>, <<>>>>,
                 dat |-> <<Empty, Empty, Empty>>, snap |-> [j \in 1 .. 3 |-> <<"never">>], n |-> 3]
Fn(p) == [k \in {p[j][1] : j \in DOMAIN p} |-> p[CHOOSE j \in DOMAIN p : p[j][1] = k][2]]
Verdict(t, show, nested) ==
  IF Len(show) # t.n THEN "number-of-nodes-or-error"
  ELSE IF \E x \in Nodes(t) : show[x].par # t.par[x] THEN "parent"
  ELSE IF \E x \in Nodes(t) : show[x].kids # t.kids[x] THEN "children"
  ELSE IF ~nested /\ \E x \in Nodes(t) : Fn(show[x].local) # t.dat[x] THEN "local-map"
  ELSE IF \E x \in Nodes(t) : Fn(show[x].full) # Full(t, x) THEN "inherited-map"
  ELSE IF ~nested /\ \E x \in Nodes(t) : show[x].changed # Changed(t, x) THEN "changed-flag"
  ELSE IF \E x \in Nodes(t) : show[x].root # Up(t, x)[Len(Up(t, x))] THEN "root"
  ELSE ""
Init == i = 1 /\ l = 1 /\ s = Start(Trace[1].steps[1].op.x)
Goto(j) == IF j > Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) /\ i' = j /\ l' = 1 /\ s' = s
           ELSE i' = j /\ l' = 1 /\ s' = Start(Trace[j].steps[1].op.x)
Next == /\ i <= Len(Trace)
        /\ LET H == Trace[i].steps IN
           IF l >= Len(H) THEN Goto(i + 1)
           ELSE LET t == PStep(s, H[l + 1].op)
                    v == Verdict(t, H[l + 1].show, H[l + 1].nested)
                IN IF v = "" THEN i' = i /\ l' = l + 1 /\ s' = t
                   ELSE PrintT(ToJson([bad |-> v, i |-> i, step |-> l + 1])) /\ Goto(i + 1)
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
