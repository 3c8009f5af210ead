------------------------------- MODULE NxProc --------------------------------
(* Identity of the processes of a file (io/nxfs.py: nxprocess, find_nxprocess, *)
(* add_dependency, checksum; io/target.py: Name, match, calc_checksum).        *)
(* A name is <<family, number>>; the driver spells it ("p", "p.3", "q7",       *)
(* "s1_09", "entry0002", "scan10").  s = [ents : names of entries,             *)
(* node : <<entry, name>> -> [k |-> "group"] or                                *)
(*        [k |-> "proc", par, deps : Seq(<<entry, name>>), id, seq]]           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [k \in {} |-> 0]
Init0 == [ents |-> {}, node |-> Empty]
With(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Has(s, e, n) == <<e, n>> \in DOMAIN s.node
IsProc(s, p) == p \in DOMAIN s.node /\ s.node[p].k = "proc"
\* what a dependency stands for: a process for what it is made from, anything
\* else (also a place where nothing is any more) for its place
IdOf(s, p) == IF IsProc(s, p) THEN s.node[p].id ELSE [at |-> p]
Identity(s, par, deps) == [par |-> par, deps |-> [k \in DOMAIN deps |-> IdOf(s, deps[k])]]
SeqIndex(s, deps) == 1 + Max({0} \cup {s.node[deps[k]].seq : k \in {j \in DOMAIN deps : IsProc(s, deps[j])}})

\* a name pattern stands for its family with any number (a name without number
\* for itself as well)
Matches(n, pattern) == pattern = <<>> \/ (n[1] = pattern[1] /\ (n[1] = "p" /\ n[2] = 0 => pattern[2] = 0))
Candidates(s, es, pattern, id) ==
  {p \in DOMAIN s.node : p[1] \in es /\ IsProc(s, p) /\ Matches(p[2], pattern) /\ s.node[p].id = id}

\* alphabetic order of the spelled entry names
Rank(n) == IF n[1] = "scan" THEN (IF n[2] < 10 THEN 10 * n[2] ELSE n[2]) ELSE n[2]
Before(a, b) == IF a[1] = b[1] THEN Rank(a) < Rank(b) ELSE a[1] = "entry"
LastEntry(s) == CHOOSE e \in s.ents : \A f \in s.ents : f = e \/ Before(f, e)
RECURSIVE FreeEntry(_, _)
FreeEntry(s, n) == IF n \in s.ents THEN FreeEntry(s, <<n[1], n[2] + 1>>) ELSE n
NextEntry(s, like) ==
  IF s.ents = {} THEN <<"entry", 1>>
  ELSE FreeEntry(s, IF like # <<>> THEN like ELSE LastEntry(s))
RECURSIVE FreeName(_, _, _)
FreeName(s, e, n) == IF Has(s, e, n) THEN FreeName(s, e, <<n[1], n[2] + 1>>) ELSE n

R(res, t) == [res |-> res, t |-> t]

\* possible outcomes of one call (a set: several processes may be the one)
Create(s, e, n, o, id) ==
  LET t0 == [s EXCEPT !.ents = @ \cup {e}] IN
  IF Has(s, e, n) /\ (o.noinc \/ ~IsProc(s, <<e, n>>)) THEN R(<<"exists">>, t0)
  ELSE LET m == FreeName(s, e, n) IN
       R(<<"at", e, m>>, [t0 EXCEPT !.node = With(@, <<e, m>>,
            [k |-> "proc", par |-> o.par, deps |-> o.deps, id |-> id, seq |-> SeqIndex(s, o.deps)])])
Outcomes(s, o) ==
  CASE o.op = "newentry" -> LET e == NextEntry(s, o.like) IN {R(<<"entry", e>>, [s EXCEPT !.ents = @ \cup {e}])}
    [] o.op = "entry"    -> {R(<<"entry", o.e>>, [s EXCEPT !.ents = @ \cup {o.e}])}
    [] o.op = "group"    -> {R(<<"at", o.e, o.n>>, [s EXCEPT !.node = With(@, <<o.e, o.n>>, [k |-> "group"])])}
    [] o.op = "remove"   -> {R(<<"ok">>, [s EXCEPT !.node = Without(@, <<o.e, o.n>>)])}
    [] o.op = "rename"   -> {R(<<"ok">>, [s EXCEPT !.node = With(Without(@, <<o.e, o.n>>), <<o.e, o.m>>, @[<<o.e, o.n>>])])}
    [] o.op \in {"find", "proc"} ->
         LET id == Identity(s, o.par, o.deps)
             es == IF o.all \/ o.e = <<>> THEN s.ents ELSE {o.e}
             cs == Candidates(s, es, o.n, id)
         IN IF cs # {} THEN {R(<<"at", p[1], p[2]>>, s) : p \in cs}
            ELSE IF o.op = "find" THEN {R(<<"none">>, s)}
            ELSE {Create(s, IF o.e = <<>> THEN NextEntry(s, <<>>) ELSE o.e, o.n, o, id)}

Valid(s, p) == s.node[p].id = Identity(s, s.node[p].par, s.node[p].deps)
Procs(s) == {p \in DOMAIN s.node : IsProc(s, p)}

\* ----------------------------------------------------------- what must hold
Inv0(s) ==
  /\ \A p \in DOMAIN s.node : p[1] \in s.ents
  /\ \A p \in Procs(s) : s.node[p].seq >= 1 /\ s.node[p].id.par = s.node[p].par
                         /\ Len(s.node[p].id.deps) = Len(s.node[p].deps)
\* a call for a process gives one that is what was asked for, of that name family
Answers(s, o, r) ==
  (o.op \in {"find", "proc"} /\ r.res[1] = "at") =>
     LET p == <<r.res[2], r.res[3]>> IN
     /\ IsProc(r.t, p) /\ r.t.node[p].id = Identity(s, o.par, o.deps) /\ Matches(p[2], o.n)
\* no call changes or removes another process
Untouched(s, o, r) ==
  \A p \in DOMAIN s.node : (o.op \in {"remove", "rename"} /\ p = <<o.e, o.n>>) \/
                           (p \in DOMAIN r.t.node /\ r.t.node[p] = s.node[p])
\* asking twice gives no second process
Once(s, o, r) ==
  (o.op = "proc" /\ r.res[1] = "at") =>
     \A q \in Outcomes(r.t, o) : q.t = r.t
==============================================================================
