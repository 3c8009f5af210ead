----------------------------- MODULE OpenModeMC -----------------------------
(* The limits that the default mode stands for, over every history of uses of
   one file through proxies with every default mode and every mode asked for. *)
EXTENDS OpenMode, TLC
CONSTANTS L
VARIABLES c, last
Chars == {"p", "q"}
Actions == {[k |-> "read"], [k |-> "write", x |-> "p"], [k |-> "write", x |-> "q"]}
Seqs == {<<>>} \cup {<<a>> : a \in Actions} \cup {<<a, b>> : a \in Actions, b \in Actions}
Init == c \in {None, <<>>, <<"p", "q", "p">>} /\ last = [dm |-> "a", before |-> c, rm |-> ""]
Next == \E dm \in LocalModes, rm \in LocalModes \cup {""}, as \in Seqs :
  LET u == UseLocal(c, dm, rm, as) IN
  /\ c' = u.c /\ last' = [dm |-> dm, rm |-> rm, before |-> c]
  /\ (c' = None \/ Len(c') <= L)
Spec == Init /\ [][Next]_<<c, last>>
Begins(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Limits ==
  LET b == last.before IN
  /\ last.dm = "r" => c = b
  /\ last.rm = "r" => c = b
  /\ last.dm = "r+" /\ b = None => c = None
  /\ last.dm \in {"r+", "a", "a+"} /\ b # None => Len(c) >= Len(b)
  /\ last.dm \in {"x", "x+"} /\ b # None => c = b
  /\ last.dm \in {"a", "a+"} /\ last.rm \notin {"r+"} /\ b # None => Begins(b, c)
H5Limits == \A s \in {NoFile, "-", "d", "g"}, dm \in H5Modes, rm \in H5Modes \cup {""}, t \in BOOLEAN, act \in {"keep", "put"} :
  \A u \in {UseH5Node(s, dm, rm, t), UseH5File(s, dm, rm, act)} :
    /\ dm = "r" => u.c = s
    /\ rm = "r" => u.c = s
    /\ dm = "r+" /\ s = NoFile => u.c = NoFile
    /\ dm = "x" /\ s # NoFile => u.c = s
    /\ s # NoFile => u.c # NoFile
=============================================================================
