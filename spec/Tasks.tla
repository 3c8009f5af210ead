-------------------------------- MODULE Tasks --------------------------------
(* Processing tasks (process/basetask.py, process/nxprocess.py,                *)
(* utils/signalhandling.py): a task writes into a temporary place and renames  *)
(* it to its output when it is finished.                                       *)
(*                                                                             *)
(* Tasks are described by a fixed catalogue.  Two task objects with the same   *)
(* catalogue number have the same method, parameters, name and dependencies    *)
(* and therefore the same identity.  Output names are <<place, family, nr>>    *)
(* e.g. file 1/entry e1, name "a.2".                                           *)
(*                                                                             *)
(* s = [outs: set of [at: place, f: family, n: number, d: task],               *)
(*      run: process -> stack of [d: task, ph: progress of its body],          *)
(*      dead, deadloc: temporary groups/directories left by killed processes,  *)
(*      dflt: file -> output shown by default, or <<>>]                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Places == {"1e1", "1e2", "2e1"}       \* file + entry
FileOf(at) == IF at = "2e1" THEN 2 ELSE 1
Cat == <<
  [at |-> "1e1", f |-> "a", start |-> 1, deps |-> {}],
  [at |-> "1e1", f |-> "a", start |-> 1, deps |-> {}],
  [at |-> "1e1", f |-> "b", start |-> 7, deps |-> {1}],
  [at |-> "1e1", f |-> "b", start |-> 7, deps |-> {2}],
  [at |-> "1e1", f |-> "b", start |-> 8, deps |-> {1, 2}],
  [at |-> "1e2", f |-> "a", start |-> 1, deps |-> {1}],
  [at |-> "2e1", f |-> "c", start |-> 1, deps |-> {3}],
  [at |-> "1e1", f |-> "a", start |-> 1, deps |-> {1}] >>
D == DOMAIN Cat
Procs == {1, 2}
Init0 == [outs |-> {}, run |-> <<<<>>, <<>>>>, dead |-> 0, deadloc |-> 0, dflt |-> <<<<>>, <<>>>>]

Done(s, d) == \E o \in s.outs : o.d = d
Ready(s, d) == \A e \in Cat[d].deps : Done(s, e)
Taken(s, at, f) == {o.n : o \in {q \in s.outs : q.at = at /\ q.f = f}}
Free(s, d) == LET T == Taken(s, Cat[d].at, Cat[d].f)
              IN CHOOSE n \in Cat[d].start .. Cat[d].start + Cardinality(T) :
                   n \notin T /\ \A m \in Cat[d].start .. n - 1 : m \in T
Name(s, d) == IF Done(s, d) THEN LET o == CHOOSE o \in s.outs : o.d = d IN <<o.at, o.f, o.n>>
              ELSE <<Cat[d].at, Cat[d].f, Free(s, d)>>
Temps(s) == Len(s.run[1]) + Len(s.run[2]) + s.dead
LocOf(stack) == Cardinality({k \in DOMAIN stack : stack[k].ph = 2})
TempLocs(s) == LocOf(s.run[1]) + LocOf(s.run[2]) + s.deadloc

Top(s, p) == s.run[p][Len(s.run[p])]
Pop(s, p) == [s EXCEPT !.run[p] = SubSeq(@, 1, Len(@) - 1)]

\* the task's output appears, unless someone else made it in the meantime;
\* it becomes what is shown by default
Publish(s, d) ==
  LET nm == Name(s, d)
      t == IF Done(s, d) THEN s
           ELSE [s EXCEPT !.outs = @ \cup {[at |-> nm[1], f |-> nm[2], n |-> nm[3], d |-> d]}]
  IN [t EXCEPT !.dflt[FileOf(nm[1])] = nm]

R(t, res) == [t |-> t, res |-> res]
\* result: what run() does: "running" (the body started), "returned", "raised"
TStep(s, o) ==
  CASE o.op = "start" ->
         IF ~Ready(s, o.d) \/ Done(s, o.d) THEN R(s, "returned")
         ELSE R([s EXCEPT !.run[o.p] = Append(@, [d |-> o.d, ph |-> 0])], "running")
    [] o.op = "step" -> R([s EXCEPT !.run[o.p][Len(s.run[o.p])].ph = @ + 1], "running")
    [] o.op = "end" ->
         IF o.how = "ok" THEN R(Publish(Pop(s, o.p), Top(s, o.p).d), "returned")
         ELSE IF o.how = "exc" THEN R(Pop(s, o.p), "returned")
         ELSE R([s EXCEPT !.run[o.p] = <<>>], "raised")       \* a termination signal
    [] o.op = "kill" -> R([s EXCEPT !.run[o.p] = <<>>, !.dead = @ + Len(s.run[o.p]),
                                    !.deadloc = @ + LocOf(s.run[o.p])], "gone")

\* a whole sequence of tasks; task number o.at fails (0: none): the run stops at
\* the first task that is not done afterwards
RECURSIVE Sequential(_, _, _)
Sequential(s, ds, k) ==
  IF ds = <<>> THEN R(s, "true")
  ELSE LET d == Head(ds)
           t == IF Ready(s, d) /\ ~Done(s, d) /\ k # 1 THEN Publish(s, d) ELSE s
       IN IF Done(t, d) THEN Sequential(t, Tail(ds), k - 1) ELSE R(t, "false")
Step(s, o) == IF o.op = "seq" THEN Sequential(s, o.ds, o.k) ELSE TStep(s, o)

(* ------------------------------- invariants ------------------------------ *)
Unique(s) == \A a, b \in s.outs : (a.d = b.d \/ <<a.at, a.f, a.n>> = <<b.at, b.f, b.n>>) => a = b
Causal(s) == \A o \in s.outs : Ready(s, o.d)
Default(s) == \A x \in 1 .. 2 : s.dflt[x] # <<>> =>
                 \E o \in s.outs : s.dflt[x] = <<o.at, o.f, o.n>> /\ FileOf(o.at) = x
==============================================================================
