------------------------------- MODULE FsTree -------------------------------
(* A tree of named nodes addressed by paths: the state shared by the local    *)
(* and the HDF5 file system models.  A path is a sequence of names, the root  *)
(* is <<>>.  Symbolic links carry their target: `u` levels up from the        *)
(* directory holding the link and then down `t`; u = -1: absolute target.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dir == [k |-> "d"]
File(c) == [k |-> "f", c |-> c]
Link(u, t) == [k |-> "l", u |-> u, t |-> t]

Pfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
Related(p, q) == Pfx(p, q) \/ Pfx(q, p)
Below(p, q) == SubSeq(q, Len(p) + 1, Len(q))   \* q relative to its ancestor p

Has(t, p) == p \in DOMAIN t
Sub(t, p) == {q \in DOMAIN t : Pfx(p, q)}
Without(t, p) == [q \in DOMAIN t \ Sub(t, p) |-> t[q]]
Put(t, p, n) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN n ELSE t[q]]
\* copy the subtree at p (as is) to the free place q
Graft(t, p, q) ==
  [x \in DOMAIN t \cup {q \o Below(p, y) : y \in Sub(t, p)} |->
     IF Pfx(q, x) THEN t[p \o Below(q, x)] ELSE t[x]]
Kids(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ Pfx(p, q)}

\* Symbolic links are followed at most FUEL times.
FUEL == 6
RECURSIVE Walk(_, _, _, _, _)
Walk(t, cur, rest, fuel, last) ==
  IF rest = <<>> THEN [s |-> "ok", p |-> cur]
  ELSE LET n == Append(cur, Head(rest)) IN
       IF ~Has(t, n)
       THEN IF Len(rest) = 1 THEN [s |-> "new", p |-> n] ELSE [s |-> "ENOENT", p |-> n]
       ELSE CASE t[n].k = "d" -> Walk(t, n, Tail(rest), fuel, last)
              [] t[n].k = "f" -> IF Len(rest) = 1 THEN [s |-> "ok", p |-> n]
                                                 ELSE [s |-> "ENOTDIR", p |-> n]
              [] t[n].k = "l" ->
                   IF Len(rest) = 1 /\ ~last THEN [s |-> "ok", p |-> n]
                   ELSE IF fuel = 0 THEN [s |-> "ELOOP", p |-> n]
                   ELSE IF t[n].u > Len(cur) THEN [s |-> "ESC", p |-> n]
                   ELSE Walk(t, IF t[n].u < 0 THEN <<>> ELSE SubSeq(cur, 1, Len(cur) - t[n].u),
                             t[n].t \o Tail(rest), fuel - 1, last)

Res(t, p) == Walk(t, <<>>, p, FUEL, TRUE)
LRes(t, p) == Walk(t, <<>>, p, FUEL, FALSE)
Exists(t, p) == Res(t, p).s = "ok"
LExists(t, p) == LRes(t, p).s = "ok"
Real(t, p) == Res(t, p).p
LReal(t, p) == LRes(t, p).p
IsDir(t, p) == Exists(t, p) /\ t[Real(t, p)].k = "d"
IsFile(t, p) == Exists(t, p) /\ t[Real(t, p)].k = "f"
IsLink(t, p) == LExists(t, p) /\ t[LReal(t, p)].k = "l"
\* no link in the proper ancestors of p
Plain(t, p) == \A i \in 0 .. Len(p) - 1 : ~IsLink(t, SubSeq(p, 1, i))

\* well-formed: rooted, and every node's parent is a directory
TreeOK(t) == /\ Has(t, <<>>) /\ t[<<>>].k = "d"
             /\ \A p \in DOMAIN t : p # <<>> => Has(t, Parent(p)) /\ t[Parent(p)].k = "d"

CommonLen(p, q) ==
  CHOOSE n \in 0 .. Len(p) :
     /\ n <= Len(q) /\ SubSeq(p, 1, n) = SubSeq(q, 1, n)
     /\ (n = Len(p) \/ n = Len(q) \/ p[n + 1] # q[n + 1])
\* lexical relative path from directory b to path d
Rel(b, d) == LET n == CommonLen(b, d) IN Link(Len(b) - n, SubSeq(d, n + 1, Len(d)))

\* the multiset of file contents, as a function content -> count
Contents(t) == {p \in DOMAIN t : t[p].k = "f"}
CountOf(t, c) == Cardinality({p \in Contents(t) : t[p].c = c})

Flat(t) == {<<p, t[p]>> : p \in DOMAIN t}
\* inverse of Flat for JSON input (a sequence of <<path, node>>)
Unflat(s) == [p \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = p][2]]
=============================================================================
