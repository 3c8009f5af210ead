-------------------------------- MODULE Hash ---------------------------------
(* Hashes of data (utils/hashing.py).  Data is a tree:                          *)
(*   <<"none">>  <<"num", n>>  <<"str", t>>  <<"empty", what>>                  *)
(*   <<"seq", <<...>>>>  <<"set", <<...>>>> (in any order)                      *)
(*   <<"map", << <<k, v>>, ... >>>> (in any order)  <<"qty", data, unit>>       *)
(* n names a number, whatever type it has, t a text, bytes or not; sequences    *)
(* are lists, tuples or arrays.  Two hashes are equal iff the data is.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Same(_, _)
Same(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "none" -> TRUE
         [] a[1] \in {"num", "str", "empty"} -> a[2] = b[2]
         [] a[1] = "qty" -> a[3] = b[3] /\ Same(a[2], b[2])
         [] a[1] = "seq" -> Len(a[2]) = Len(b[2]) /\ \A k \in DOMAIN a[2] : Same(a[2][k], b[2][k])
         [] a[1] = "set" -> /\ Len(a[2]) = Len(b[2])
                            /\ \A k \in DOMAIN a[2] : \E j \in DOMAIN b[2] : Same(a[2][k], b[2][j])
         [] a[1] = "map" -> /\ Len(a[2]) = Len(b[2])
                            /\ \A k \in DOMAIN a[2] : \E j \in DOMAIN b[2] :
                                 Same(a[2][k][1], b[2][j][1]) /\ Same(a[2][k][2], b[2][j][2])
==============================================================================
