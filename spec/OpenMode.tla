------------------------------ MODULE OpenMode ------------------------------
(* What opening a path may do to the file behind it.

   Every proxy to a file has a default mode, and each time it is opened a mode
   may be asked for.  The default mode is a limit: the file is opened in the
   mode asked for if the default allows that, otherwise in the default mode.

   Local files: the content is a sequence of characters (None: no file).
   HDF5 files: the content is what the root group has: "-" (nothing), "d"
   (dataset "n") or "g" (group "n"); NoFile: no file. *)
EXTENDS Integers, Sequences
None == <<"no file">>
Dir == <<"directory">>
NoFile == "none"

LocalModes == {"r", "r+", "w", "w+", "x", "x+", "a", "a+"}
LocalAllowed(dm) ==
  CASE dm = "r" -> {"r"}
    [] dm = "r+" -> {"r", "r+"}
    [] dm \in {"x", "x+"} -> {"r", "x", "x+"}
    [] dm \in {"w", "w+"} -> {"r", "w", "w+"}
    [] dm \in {"a", "a+"} -> {"r", "r+", "a", "a+"}
LocalMode(dm, rm) == IF rm = "" THEN dm ELSE IF rm \in LocalAllowed(dm) THEN rm ELSE dm

MayRead(m) == m \in {"r", "r+", "w+", "x+", "a+"}
MayWrite(m) == m # "r"
(* opening: [err, content, pos]; Dir: there is a directory *)
OpenLocal(c, m) ==
  IF c = Dir THEN [err |-> "notafile", c |-> c, pos |-> 0]
  ELSE IF m \in {"r", "r+"} THEN [err |-> IF c = None THEN "missing" ELSE "", c |-> c, pos |-> 0]
  ELSE IF m \in {"x", "x+"} /\ c # None THEN [err |-> "exists", c |-> c, pos |-> 0]
  ELSE IF m \in {"a", "a+"} THEN [err |-> "", c |-> IF c = None THEN <<>> ELSE c, pos |-> IF c = None THEN 0 ELSE Len(c)]
  ELSE [err |-> "", c |-> <<>>, pos |-> 0]
(* one character c written at pos p *)
Put(c, p, x) == IF p >= Len(c) THEN Append(c, x) ELSE [c EXCEPT ![p + 1] = x]
(* what is done with an open file: [k |-> "read"], [k |-> "write", x |-> char]
   (nested opening of the same proxy gives the same open file, whatever the mode)
   s = [c, pos, out, err] *)
Act(s, m, a) ==
  IF s.err # "" THEN s
  ELSE IF a.k = "read"
  THEN IF MayRead(m) THEN [s EXCEPT !.pos = Len(s.c), !.out = Append(@, SubSeq(s.c, s.pos + 1, Len(s.c)))] ELSE [s EXCEPT !.err = "unsupported"]
  ELSE IF ~MayWrite(m) THEN [s EXCEPT !.err = "unsupported"]
  ELSE LET p == IF m \in {"a", "a+"} THEN Len(s.c) ELSE s.pos IN [s EXCEPT !.c = Put(s.c, p, a.x), !.pos = p + 1]
RECURSIVE Acts(_, _, _)
Acts(s, m, as) == IF as = <<>> THEN s ELSE Acts(Act(s, m, Head(as)), m, Tail(as))
(* a whole use of the file: open it, do the actions, close it *)
UseLocal(c, dm, rm, as) ==
  LET m == LocalMode(dm, rm)
      o == OpenLocal(c, m)
  IN IF o.err # "" THEN [c |-> c, out |-> <<>>, err |-> o.err]
     ELSE LET s == Acts([c |-> o.c, pos |-> o.pos, out |-> <<>>, err |-> ""], m, as)
          IN [c |-> s.c, out |-> s.out, err |-> s.err]

(* ------------------------------------------------------------------- HDF5 *)
H5Modes == {"r", "r+", "w", "x", "a"}
H5Allowed(dm) ==
  CASE dm = "r" -> {"r"}
    [] dm = "r+" -> {"r", "r+"}
    [] dm = "x" -> {"r", "x"}
    [] dm = "w" -> {"r", "w", "a"}
    [] dm = "a" -> {"r", "a"}
H5Mode(dm, rm) == IF rm = "" THEN dm ELSE IF rm \in H5Allowed(dm) THEN rm ELSE dm
OpenH5(c, m) ==
  IF m \in {"r", "r+"} THEN [err |-> IF c = NoFile THEN "missing" ELSE "", c |-> c]
  ELSE IF m = "x" THEN [err |-> IF c = NoFile THEN "" ELSE "exists", c |-> IF c = NoFile THEN "-" ELSE c]
  ELSE IF m = "a" THEN [err |-> "", c |-> IF c = NoFile THEN "-" ELSE c]
  ELSE [err |-> "", c |-> "-"]
(* opening the file itself; act: "keep" or "put" (store a dataset "n" if there
   is nothing of that name) *)
UseH5File(c, dm, rm, act) ==
  LET m == H5Mode(dm, rm)
      o == OpenH5(c, m)
  IN IF o.err # "" THEN [c |-> c, err |-> o.err]
     ELSE IF act = "keep" \/ o.c \in {"d", "g"} THEN [c |-> o.c, err |-> ""]
     ELSE IF m = "r" THEN [c |-> o.c, err |-> "unsupported"]
     ELSE [c |-> "d", err |-> ""]
(* opening the node "n" of the file; data: with something to create it from.
   The node's own mode is the mode asked for (the default mode when there is
   none); a default mode w does not empty the file for that. *)
UseH5Node(c, dm, rm, data) ==
  LET nm == IF rm = "" THEN dm ELSE rm
      m == H5Mode(dm, IF dm = "w" /\ nm # "r" THEN "a" ELSE nm)
      o == OpenH5(c, m)
      new == IF ~data THEN [c |-> o.c, err |-> "nodata"]
             ELSE IF m = "r" THEN [c |-> o.c, err |-> "unsupported"]
             ELSE [c |-> "d", err |-> ""]
      there == o.c \in {"d", "g"}
  IN IF o.err # "" THEN [c |-> c, err |-> o.err]
     ELSE IF ~there THEN IF nm \in {"r", "r+"} THEN [c |-> o.c, err |-> "missing"] ELSE new
     ELSE IF nm = "x" THEN [c |-> o.c, err |-> "exists"]
     ELSE IF nm = "w"
     THEN IF data /\ o.c = "g" THEN [c |-> o.c, err |-> "notafile"]
          ELSE IF ~data /\ o.c = "d" THEN [c |-> o.c, err |-> "notadir"]
          ELSE IF data THEN new ELSE [c |-> o.c, err |-> ""]
     ELSE IF data THEN [c |-> o.c, err |-> "exists"]
     ELSE [c |-> o.c, err |-> ""]
=============================================================================
