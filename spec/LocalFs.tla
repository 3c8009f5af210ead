------------------------------- MODULE LocalFs ------------------------------
(* The local file system proxy (io/fs.py, io/localfs.py): one transition per   *)
(* public path operation.  LStep(t, op) = [res, t, dom]: the result class, the *)
(* next tree, and whether the operation is inside the modelled domain.         *)
EXTENDS FsTree

Ok(t) == [res |-> "ok", t |-> t, dom |-> TRUE, val |-> <<>>]
OkV(t, v) == [res |-> "ok", t |-> t, dom |-> TRUE, val |-> v]
Err(t, e) == [res |-> e, t |-> t, dom |-> TRUE, val |-> <<>>]
\* outside the modelled domain (see DESIGN.md): nothing is claimed
Out(t) == [res |-> "any", t |-> t, dom |-> FALSE, val |-> <<>>]

Esc(t, p) == Res(t, p).s \in {"ESC", "ELOOP"} \/ LRes(t, p).s \in {"ESC", "ELOOP"}

(* --------------------------------- mkdir -------------------------------- *)
MkTree(t, p) ==
  LET e == CHOOSE i \in 0 .. Len(p) - 1 :
              Exists(t, SubSeq(p, 1, i)) /\ \A j \in i + 1 .. Len(p) : ~Exists(t, SubSeq(p, 1, j))
      ex == SubSeq(p, 1, e)
      n1 == SubSeq(p, 1, e + 1)
      real == Real(t, ex)
      RECURSIVE Mk(_, _, _)
      Mk(tt, at, rest) == IF rest = <<>> THEN tt
                          ELSE Mk(Put(tt, Append(at, Head(rest)), Dir), Append(at, Head(rest)), Tail(rest))
  IN IF t[real].k = "f" THEN Err(t, "oserr")
     ELSE IF LExists(t, n1) THEN (IF n1 = p THEN Out(t) ELSE Err(t, "oserr"))
     ELSE Ok(Mk(t, real, Below(ex, p)))

Mkdir(t, p, rec, force) ==
  IF Esc(t, p) THEN Out(t)
  ELSE IF Exists(t, p)
       THEN IF ~force THEN Err(t, "AlreadyExists")
            ELSE IF IsFile(t, p) THEN Err(t, "NotADirectory") ELSE Ok(t)
       ELSE IF rec THEN MkTree(t, p)
            ELSE IF ~Exists(t, Parent(p)) THEN Err(t, "MissingParentDirectory")
            ELSE IF ~IsDir(t, Parent(p)) \/ LExists(t, p) THEN Err(t, "oserr")
            ELSE Ok(Put(t, LReal(t, p), Dir))

(* ------------------------------ read / write ----------------------------- *)
Write(t, p, c) ==
  LET w == Res(t, p) IN
  CASE w.s = "ok" -> IF t[w.p].k = "d" THEN Err(t, "NotAFile") ELSE Ok(Put(t, w.p, File(c)))
    [] w.s = "new" -> Ok(Put(t, w.p, File(c)))
    [] w.s = "ENOENT" -> Err(t, "Missing")
    [] w.s = "ENOTDIR" -> Err(t, "NotAFile")
    [] OTHER -> Out(t)

Read(t, p) ==
  LET w == Res(t, p) IN
  CASE w.s = "ok" -> IF t[w.p].k = "d" THEN Err(t, "NotAFile") ELSE OkV(t, <<t[w.p].c>>)
    [] w.s \in {"new", "ENOENT"} -> Err(t, "Missing")
    [] w.s = "ENOTDIR" -> Err(t, "NotAFile")
    [] OTHER -> Out(t)

(* --------------------------------- remove -------------------------------- *)
\* lexical destination of a link (one hop)
LexDest(t, p) == LET n == t[LReal(t, p)]
                     b == Parent(p)
                 IN IF n.u < 0 THEN n.t ELSE SubSeq(b, 1, Len(b) - n.u) \o n.t

RECURSIVE RemoveNode(_, _, _, _)
RemoveNode(t, p, rec, fuel) ==
  IF fuel = 0 \/ Esc(t, p) \/ p = <<>> THEN Out(t)
  ELSE IF IsLink(t, p)
       THEN IF rec
            THEN IF t[LReal(t, p)].u > Len(Parent(p)) THEN Out(t)
                 ELSE LET d == LexDest(t, p)
                          r == RemoveNode(t, d, TRUE, fuel - 1)
                      IN IF ~r.dom \/ r.res # "ok" THEN Out(t)
                         ELSE IF ~Has(r.t, LReal(t, p)) THEN Out(t)
                         ELSE Ok(Without(r.t, LReal(t, p)))
            ELSE Ok(Without(t, LReal(t, p)))
       ELSE IF ~Exists(t, p) THEN Ok(t)
       ELSE IF IsDir(t, p)
            THEN IF rec \/ Kids(t, Real(t, p)) = {} THEN Ok(Without(t, Real(t, p)))
                 ELSE Err(t, "DirectoryIsNotEmpty")
            ELSE Ok(Without(t, Real(t, p)))

(* ------------------------------ copy and move ---------------------------- *)
\* where dest0 really points, what is in the way, and what has to be created
Target(t, p, d0, rename) == IF IsDir(t, d0) /\ ~rename THEN Append(d0, Name(p)) ELSE d0

Prepare(t, p, d0, force, rename) ==
  LET d == Target(t, p, d0, rename)
      bad == \/ p = <<>> \/ d = <<>> \/ Esc(t, p) \/ Esc(t, d) \/ Esc(t, d0)
             \/ ~Plain(t, d) \/ ~Plain(t, p)
  IN IF bad THEN Out(t)
     ELSE IF ~LExists(t, p) THEN Err(t, "Missing")
     ELSE IF Related(p, d) THEN Err(t, "oserr")
     ELSE LET t1 == IF LExists(t, d)
                    THEN IF force THEN RemoveNode(t, d, ~IsLink(t, d), FUEL)
                         ELSE Err(t, "AlreadyExists")
                    ELSE Ok(t)
          IN IF ~t1.dom THEN Out(t)
             ELSE IF t1.res # "ok" THEN t1
             ELSE IF ~LExists(t1.t, p) \/ (Exists(t, p) /\ ~Exists(t1.t, p)) THEN Out(t)
             ELSE IF Exists(t1.t, Parent(d)) THEN Ok(t1.t)
             ELSE Mkdir(t1.t, Parent(d), TRUE, TRUE)

Move(t, p, d0, force, rename) ==
  LET pr == Prepare(t, p, d0, force, rename)
      d == Target(t, p, d0, rename)
  IN IF ~pr.dom THEN Out(t)
     ELSE IF pr.res # "ok" THEN [pr EXCEPT !.t = IF force THEN @ ELSE t]
     ELSE LET s == LReal(pr.t, p)
              w == LRes(pr.t, d)
          IN IF w.s = "ok" /\ pr.t[s].k = "d" THEN Err(pr.t, "oserr")   \* directory over a dangling link
             ELSE IF w.s \notin {"ok", "new"} THEN Err(pr.t, "oserr")
             ELSE LET t2 == IF w.s = "ok" THEN Without(pr.t, w.p) ELSE pr.t
                  IN OkV(Without(Graft(t2, s, w.p), s), d)

Copy(t, p, d0, force, follow) ==
  LET pr == Prepare(t, p, d0, force, FALSE)
      d == Target(t, p, d0, FALSE)
  IN IF ~pr.dom THEN Out(t)
     ELSE IF pr.res # "ok" THEN [pr EXCEPT !.t = IF force THEN @ ELSE t]
     ELSE LET w == LRes(pr.t, d)
          IN IF IsLink(pr.t, p) /\ ~follow
             THEN IF t[LReal(t, p)].u > Len(Parent(p)) \/ Pfx(LexDest(pr.t, p), d) THEN Out(t)
                  ELSE IF w.s # "new" THEN Err(pr.t, "oserr")
                  ELSE OkV(Put(pr.t, w.p, Rel(Parent(d), LexDest(pr.t, p))), d)
             ELSE IF ~Exists(pr.t, p) THEN Out(t)
             ELSE IF IsDir(pr.t, p)
                  THEN IF w.s # "new" THEN Err(pr.t, "oserr")
                       ELSE IF Pfx(Real(pr.t, p), w.p) THEN Out(t)
                       ELSE OkV(Graft(pr.t, Real(pr.t, p), w.p), d)
                  ELSE IF w.s = "new" THEN OkV(Put(pr.t, w.p, pr.t[Real(pr.t, p)]), d)
                  ELSE IF w.s = "ok" THEN Out(t)     \* writes through a dangling link
                  ELSE Err(pr.t, "oserr")

MkLink(t, p, d) ==
  IF Pfx(d, p) \/ Esc(t, p) THEN Out(t)
  ELSE IF LRes(t, p).s # "new" THEN Err(t, "oserr")
  ELSE Ok(Put(t, LReal(t, p), Rel(Parent(p), d)))

(* --------------------------------- queries ------------------------------- *)
Query(t, p) ==
  IF Esc(t, p) \/ (IsLink(t, p) /\ t[LReal(t, p)].u > Len(Parent(p))) THEN Out(t)
  ELSE OkV(t, [exists |-> Exists(t, p), lexists |-> LExists(t, p),
               isdir |-> IsDir(t, p), isfile |-> IsFile(t, p), islink |-> IsLink(t, p),
               kids |-> IF IsDir(t, p) THEN {Name(q) : q \in Kids(t, Real(t, p))} ELSE {},
               dest |-> IF IsLink(t, p) THEN <<LexDest(t, p)>> ELSE <<>>])

\* links that point to a directory they live in are outside the model
AncLink(t) == \E x \in DOMAIN t : t[x].k = "l" /\
                LET b == Parent(x)
                    n == t[x]
                IN Pfx(IF n.u < 0 THEN n.t ELSE SubSeq(b, 1, Len(b) - n.u) \o n.t, x)

LStep0(t, o) ==
  CASE o.op = "mkdir" -> Mkdir(t, o.p, o.rec, o.force)
    [] o.op = "write" -> Write(t, o.p, o.c)
    [] o.op = "read" -> Read(t, o.p)
    [] o.op = "remove" -> RemoveNode(t, o.p, o.rec, FUEL)
    [] o.op = "move" -> Move(t, o.p, o.d, o.force, o.rename)
    [] o.op = "copy" -> Copy(t, o.p, o.d, o.force, o.follow)
    [] o.op = "link" -> MkLink(t, o.p, o.d)
    [] o.op = "query" -> Query(t, o.p)

LStep(t, o) == LET r == LStep0(t, o) IN IF r.dom /\ AncLink(r.t) THEN Out(t) ELSE r

Refusals == {"AlreadyExists", "Missing", "NotAFile", "NotADirectory", "DirectoryIsNotEmpty",
             "MissingParentDirectory"}
=============================================================================
