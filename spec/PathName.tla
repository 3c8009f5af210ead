------------------------------ MODULE PathName ------------------------------
(* Names of paths.  A path is the sequence of names from the root of its device
   (a local file system, or an HDF5 file); a reference is what is written down:
   [abs, segs] with segs possibly "", "." and "..".  Free names, and temporary
   paths that are renamed or removed at the end. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
RECURSIVE Walk(_, _)
Walk(p, segs) ==
  IF segs = <<>> THEN p
  ELSE LET s == Head(segs) IN
       Walk(IF s \in {"", "."} THEN p
            ELSE IF s = ".." THEN (IF p = <<>> THEN p ELSE Front(p))
            ELSE Append(p, s), Tail(segs))
Resolve(base, ref) == Walk(IF ref.abs THEN <<>> ELSE base, ref.segs)
Parent(p) == IF p = <<>> THEN p ELSE Front(p)
Up(p) == [k \in 1..Len(p) + 1 |-> SubSeq(p, 1, Len(p) - k + 1)]
Common(p, q) == SubSeq(p, 1, Max({k \in 0..Len(p) : k <= Len(q) /\ SubSeq(p, 1, k) = SubSeq(q, 1, k)}))
(* the shortest reference from p to q *)
Relative(p, q) == LET n == Len(Common(p, q)) IN
  IF p = q THEN <<".">> ELSE [k \in 1..Len(p) - n |-> ".."] \o SubSeq(q, n + 1, Len(q))
Beside(p, ref) == Resolve(Parent(p), ref)

(* ------------------------------------------------------------- free names *)
(* a numbered name is [base, num]; num = -1: not numbered.  The next free name
   continues the numbering of the name, or starts it at 1 *)
FreeName(n, taken) ==
  IF n \notin taken THEN n
  ELSE LET a == IF n.num < 0 THEN 1 ELSE n.num + 1
           cand(k) == [base |-> n.base, num |-> k]
       IN cand(Min({k \in a..a + Cardinality(taken) : cand(k) \notin taken}))

(* -------------------------------------------------------- temporary paths *)
(* a directory is a function from names to contents.  Within "temp" a path of a
   new name is used; o = [name, force, remove, body]: what the body left there
   ("-": nothing).  With a name it ends under that name, unless something of
   that name exists (force: it is replaced); without a name it is removed,
   unless that is switched off (then it keeps its new name, here "new") *)
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
TempStep(d, o) ==
  IF o.body = "-" THEN d
  ELSE IF o.name # "" THEN IF o.name \in DOMAIN d /\ ~o.force THEN d ELSE (o.name :> o.body) @@ Drop(d, o.name)
  ELSE IF o.remove THEN d ELSE ("new" :> o.body) @@ d
(* ----------------------------------------------------- stored statistics *)
(* operations on the statistics of nodes f (a dataset), g (a group) and l, a   *)
(* link to f, of no (nothing there): the answers and what is stored at the end *)
NodeOf(n) == IF n = "l" THEN "f" ELSE n
SetAll(s, n, kv) == [s EXCEPT ![n] = [k \in DOMAIN @ \cup DOMAIN kv |-> IF k \in DOMAIN kv THEN kv[k] ELSE @[k]]]
Unset(s, n, k) == [s EXCEPT ![n] = [x \in DOMAIN @ \ {k} |-> @[x]]]
StatStep(st, o) ==
  LET n == NodeOf(o.at)
      s == st.s
      there == n \in DOMAIN s
      has == there /\ o.key \in DOMAIN s[n]
      val == IF has THEN s[n][o.key] ELSE "default"
  IN CASE o.op = "update" -> [s |-> SetAll(s, n, o.kv), out |-> Append(st.out, "")]
       [] o.op = "open" -> [s |-> SetAll(s, n, o.kv), out |-> Append(st.out, "")]
       [] o.op = "get" -> [s |-> s, out |-> Append(st.out, val)]
       [] o.op = "pop" -> [s |-> IF has THEN Unset(s, n, o.key) ELSE s, out |-> Append(st.out, val)]
Empty == [k \in {} |-> ""]
Stored(ops) == FoldLeft(LAMBDA st, o : StatStep(st, o), [s |-> [f |-> Empty, g |-> Empty], out |-> <<>>], ops)

(* ---------------------------------------------------------------- answers *)
Want(r) ==
  CASE r.t = "nav" ->
         LET p == Resolve(<<>>, r.p)
             q == Resolve(<<>>, r.q)
         IN [path |-> p, item |-> Resolve(p, r.ref), parent |-> Parent(p), name |-> IF p = <<>> THEN "" ELSE Last(p),
             up |-> Up(p), root |-> <<>>, sibling |-> Beside(p, r.ref), abspath |-> Beside(p, r.ref),
             common |-> IF r.same THEN Common(p, q) ELSE <<"other device">>,
             rel |-> Relative(p, q), back |-> q, other |-> q, equal |-> r.same /\ p = q]
    [] r.t = "free" -> [name |-> FreeName(r.n, ToSet(r.taken))]
    [] r.t = "temp" -> LET d == TempStep([x \in {a[1] : a \in ToSet(r.before)} |-> (CHOOSE a \in ToSet(r.before) : a[1] = x)[2]], r.op)
                         IN [after |-> {<<x, d[x]>> : x \in DOMAIN d}, fresh |-> TRUE]
    [] r.t = "stat" -> [stats |-> IF r.there THEN "ok" ELSE "missing", get |-> IF r.there THEN "ok" ELSE "default"]
    [] r.t = "attrs" -> LET st == Stored(r.ops)
                        IN [out |-> st.out, f |-> {<<k, st.s.f[k]>> : k \in DOMAIN st.s.f}, g |-> {<<k, st.s.g[k]>> : k \in DOMAIN st.s.g}]
=============================================================================
