-------------------------------- MODULE H5Fs --------------------------------
(* The HDF5 file system proxy (io/h5fs.py): groups are directories, datasets   *)
(* files, soft links links.  A soft link is stored relative (u = 0) when its   *)
(* destination lies below the group that holds it and absolute (u = -1)        *)
(* otherwise; links inside a copied or moved tree that point into that tree    *)
(* follow it.  H5Step(t, op) = [res, t, dom, val].                             *)
EXTENDS FsTree

Ok(t) == [res |-> "ok", t |-> t, dom |-> TRUE, val |-> <<>>]
OkV(t, v) == [res |-> "ok", t |-> t, dom |-> TRUE, val |-> v]
Err(t, e) == [res |-> e, t |-> t, dom |-> TRUE, val |-> <<>>]
Out(t) == [res |-> "any", t |-> t, dom |-> FALSE, val |-> <<>>]

Loop(t, p) == Res(t, p).s = "ELOOP" \/ LRes(t, p).s = "ELOOP"
H5Link(b, d) == IF Pfx(b, d) THEN Link(0, Below(b, d)) ELSE Link(-1, d)
LexDest(t, p) == LET n == t[LReal(t, p)] IN IF n.u < 0 THEN n.t ELSE Parent(p) \o n.t

Mkdir(t, p, rec, force) ==
  IF Loop(t, p) THEN Out(t)
  ELSE IF Exists(t, p)
       THEN IF ~force THEN Err(t, "AlreadyExists")
            ELSE IF IsFile(t, p) THEN Err(t, "NotADirectory") ELSE Ok(t)
       ELSE LET e == CHOOSE i \in 0 .. Len(p) - 1 :
                        Exists(t, SubSeq(p, 1, i)) /\ \A j \in i + 1 .. Len(p) : ~Exists(t, SubSeq(p, 1, j))
                ex == SubSeq(p, 1, e)
                real == Real(t, ex)
                RECURSIVE Mk(_, _, _)
                Mk(tt, at, rest) == IF rest = <<>> THEN tt
                          ELSE Mk(Put(tt, Append(at, Head(rest)), Dir), Append(at, Head(rest)), Tail(rest))
            IN IF ~rec /\ e < Len(p) - 1 THEN Err(t, "MissingParentDirectory")
               ELSE IF t[real].k = "f" \/ LExists(t, SubSeq(p, 1, e + 1)) THEN Err(t, "oserr")
               ELSE Ok(Mk(t, real, Below(ex, p)))

\* create or replace a dataset; an existing link is itself replaced
Write(t, p, c, mode) ==
  LET w == Res(t, p) IN
  IF Loop(t, p) THEN Out(t)
  ELSE IF w.s = "ok"
       THEN IF mode = "x" THEN Err(t, "AlreadyExists")
            ELSE IF mode = "w" THEN IF t[w.p].k = "d" THEN Err(t, "NotAFile")
                                    ELSE Ok(Put(t, LReal(t, p), File(c)))
            ELSE Err(t, "AlreadyExists")
       ELSE IF ~Exists(t, Parent(p)) THEN Err(t, "MissingParentDirectory")
       ELSE IF LRes(t, p).s # "new" THEN Err(t, "oserr")
       ELSE Ok(Put(t, LReal(t, p), File(c)))

Read(t, p) ==
  LET w == Res(t, p) IN
  CASE w.s = "ok" -> IF t[w.p].k = "d" THEN Err(t, "oserr") ELSE OkV(t, <<t[w.p].c>>)
    [] w.s \in {"new", "ENOENT", "ENOTDIR"} -> Err(t, "Missing")
    [] OTHER -> Out(t)

RECURSIVE RemoveNode(_, _, _, _)
RemoveNode(t, p, rec, fuel) ==
  IF fuel = 0 \/ Loop(t, p) \/ p = <<>> THEN Out(t)
  ELSE IF IsLink(t, p)
       THEN IF rec
            THEN LET r == RemoveNode(t, LexDest(t, p), TRUE, fuel - 1)
                 IN IF ~r.dom \/ r.res # "ok" THEN Out(t)
                    ELSE IF ~Has(r.t, LReal(t, p)) THEN Out(t)
                    ELSE Ok(Without(r.t, LReal(t, p)))
            ELSE Ok(Without(t, LReal(t, p)))
       ELSE IF ~Exists(t, p) THEN Ok(t)
       ELSE IF IsDir(t, p) /\ ~rec /\ Kids(t, Real(t, p)) # {} THEN Err(t, "DirectoryIsNotEmpty")
       ELSE Ok(Without(t, Real(t, p)))

Target(t, p, d0, rename) == IF IsDir(t, d0) /\ ~rename THEN Append(d0, Name(p)) ELSE d0

Prepare(t, p, d0, force, rename) ==
  LET d == Target(t, p, d0, rename)
      bad == \/ p = <<>> \/ d = <<>> \/ Loop(t, p) \/ Loop(t, d) \/ Loop(t, d0)
             \/ ~Plain(t, d) \/ ~Plain(t, p)
  IN IF bad THEN Out(t)
     ELSE IF ~LExists(t, p) THEN Err(t, "Missing")
     ELSE IF Related(p, d) THEN Err(t, "oserr")
     ELSE LET t1 == IF LExists(t, d)
                    THEN IF force THEN RemoveNode(t, d, ~IsLink(t, d), FUEL)
                         ELSE Err(t, "AlreadyExists")
                    ELSE Ok(t)
          IN IF ~t1.dom THEN Out(t)
             ELSE IF t1.res # "ok" THEN t1
             ELSE IF ~LExists(t1.t, p) \/ (Exists(t, p) /\ ~Exists(t1.t, p)) THEN Out(t)
             ELSE IF Exists(t1.t, Parent(d)) THEN Ok(t1.t)
             ELSE Mkdir(t1.t, Parent(d), TRUE, TRUE)

\* links at or below the new place w that lead into the old place p now lead into the new one
Relink(t, p, w) ==
  [x \in DOMAIN t |->
     IF Pfx(w, x) /\ t[x].k = "l"
     THEN LET dst == IF t[x].u < 0 THEN t[x].t ELSE Parent(x) \o t[x].t
          IN IF Pfx(p, dst) THEN H5Link(Parent(x), w \o Below(p, dst)) ELSE t[x]
     ELSE t[x]]

Move(t, p, d0, force, rename) ==
  LET pr == Prepare(t, p, d0, force, rename)
      d == Target(t, p, d0, rename)
  IN IF ~pr.dom THEN Out(t)
     ELSE IF pr.res # "ok" THEN [pr EXCEPT !.t = IF force THEN @ ELSE t]
     ELSE LET s == LReal(pr.t, p)
              w == LRes(pr.t, d)
          IN IF w.s # "new" THEN Out(t)
             ELSE OkV(Relink(Without(Graft(pr.t, s, w.p), s), p, w.p), d)

Copy(t, p, d0, force, follow) ==
  LET pr == Prepare(t, p, d0, force, FALSE)
      d == Target(t, p, d0, FALSE)
  IN IF ~pr.dom THEN Out(t)
     ELSE IF pr.res # "ok" THEN [pr EXCEPT !.t = IF force THEN @ ELSE t]
     ELSE LET w == LRes(pr.t, d)
          IN IF w.s # "new" THEN Out(t)
             ELSE IF IsLink(pr.t, p) /\ ~follow
             THEN IF Pfx(LexDest(pr.t, p), d) THEN Out(t)
                  ELSE OkV(Put(pr.t, w.p, H5Link(Parent(d), LexDest(pr.t, p))), d)
             ELSE IF ~Exists(pr.t, p) THEN Out(t)
             ELSE IF Pfx(Real(pr.t, p), w.p) THEN Out(t)
             ELSE OkV(Relink(Graft(pr.t, Real(pr.t, p), w.p), p, w.p), d)

MkLink(t, p, d) ==
  IF Pfx(d, p) \/ Loop(t, p) \/ ~Plain(t, p) THEN Out(t)
  ELSE IF LRes(t, p).s # "new" THEN Err(t, "oserr")
  ELSE Ok(Put(t, LReal(t, p), H5Link(Parent(p), d)))

Query(t, p) ==
  IF Loop(t, p) THEN Out(t)
  ELSE OkV(t, [exists |-> Exists(t, p), lexists |-> LExists(t, p),
               isdir |-> IsDir(t, p), isfile |-> IsFile(t, p), islink |-> IsLink(t, p),
               kids |-> IF IsDir(t, p) THEN {Name(q) : q \in Kids(t, Real(t, p))} ELSE {},
               dest |-> IF IsLink(t, p) THEN <<LexDest(t, p)>> ELSE <<>>])

\* links that point to a directory they live in are outside the model
AncLink(t) == \E x \in DOMAIN t : t[x].k = "l" /\
                LET b == Parent(x)
                    n == t[x]
                IN Pfx(IF n.u < 0 THEN n.t ELSE SubSeq(b, 1, Len(b) - n.u) \o n.t, x)

H5Step0(t, o) ==
  CASE o.op = "mkdir" -> Mkdir(t, o.p, o.rec, o.force)
    [] o.op = "write" -> Write(t, o.p, o.c, o.mode)
    [] o.op = "read" -> Read(t, o.p)
    [] o.op = "remove" -> RemoveNode(t, o.p, o.rec, FUEL)
    [] o.op = "move" -> Move(t, o.p, o.d, o.force, o.rename)
    [] o.op = "copy" -> Copy(t, o.p, o.d, o.force, o.follow)
    [] o.op = "link" -> MkLink(t, o.p, o.d)
    [] o.op = "query" -> Query(t, o.p)

H5Step(t, o) == LET r == H5Step0(t, o) IN IF r.dom /\ AncLink(r.t) THEN Out(t) ELSE r

Refusals == {"AlreadyExists", "Missing", "NotAFile", "NotADirectory", "DirectoryIsNotEmpty",
             "MissingParentDirectory"}
=============================================================================
