----------------------------- MODULE Termination -----------------------------
(* Nested HandleTermination blocks (utils/signalhandling.py).                  *)
(* s = [stk: blocks entered, innermost last; h: block whose handler is         *)
(*      installed for the termination signals, 0 for the original handlers;    *)
(*      orig: "raise" or "return", what the original handler does]             *)
(* A block: [td: what its tear-down does ("true", "false": asks to swallow the *)
(* exception or not, "raise"), re: resend signals, spent: torn down already]   *)
EXTENDS Integers, Sequences, TLC

\* the handler that was installed when block k was entered
RECURSIVE Below(_, _)
Below(stk, k) == IF k <= 1 THEN 0 ELSE IF stk[k - 1].spent THEN Below(stk, k - 1) ELSE k - 1

Ev(e, k, why) == [e |-> e, k |-> k, why |-> why]

\* a signal arrives: the innermost block that is not yet torn down is torn down,
\* and the signal goes on to the handler that was installed before
RECURSIVE Chain(_, _)
Chain(s, ev) ==
  IF s.h = 0 THEN [s |-> s, ev |-> Append(ev, Ev("orig", 0, "")), x |-> s.orig = "raise"]
  ELSE LET k == s.h
           t == [s EXCEPT !.stk[k].spent = TRUE, !.h = Below(s.stk, k)]
           ev2 == Append(ev, Ev("teardown", k, "signal"))
       IN IF s.stk[k].td = "raise" THEN [s |-> t, ev |-> ev2, x |-> TRUE]
          ELSE IF s.stk[k].re THEN Chain(t, ev2)
          ELSE [s |-> t, ev |-> ev2, x |-> FALSE]

\* an exception in the innermost block
RECURSIVE Unwind(_, _)
Unwind(s, ev) ==
  LET k == Len(s.stk) IN
  IF k = 0 THEN [s |-> s, ev |-> Append(ev, Ev("raised", 0, ""))]
  ELSE LET b == s.stk[k]
           t == [s EXCEPT !.stk = SubSeq(@, 1, k - 1), !.h = IF b.spent THEN @ ELSE Below(s.stk, k)]
       IN IF b.spent THEN Unwind(t, ev)
          ELSE LET ev2 == Append(ev, Ev("teardown", k, "exception"))
               IN IF b.td = "true" THEN [s |-> t, ev |-> ev2] ELSE Unwind(t, ev2)

Go(c) == IF c.x THEN Unwind(c.s, c.ev) ELSE [s |-> c.s, ev |-> c.ev]

HStep(s, o) ==
  CASE o.op = "enter" ->
         LET k == Len(s.stk) + 1
             t == [s EXCEPT !.stk = Append(@, [td |-> o.td, re |-> o.re, spent |-> FALSE]), !.h = k]
             ev == <<Ev("setup", k, "")>>
         IN IF o.setup = "ok" THEN [s |-> t, ev |-> ev]
            ELSE IF o.setup = "raise" THEN Unwind(s, ev)
            ELSE LET c == Chain(t, ev)
                 IN IF c.x THEN Unwind([c.s EXCEPT !.stk = SubSeq(@, 1, k - 1)], c.ev)
                    ELSE [s |-> c.s, ev |-> c.ev]
    [] o.op = "leave" ->
         LET k == Len(s.stk)
             b == s.stk[k]
             t == [s EXCEPT !.stk = SubSeq(@, 1, k - 1), !.h = IF b.spent THEN @ ELSE Below(s.stk, k)]
         IN IF b.spent THEN [s |-> t, ev |-> <<>>]
            ELSE IF b.td = "raise" THEN Unwind(t, <<Ev("teardown", k, "none")>>)
            ELSE [s |-> t, ev |-> <<Ev("teardown", k, "none")>>]
    [] o.op = "exc" -> Unwind(s, <<>>)
    [] o.op = "sig" -> Go(Chain(s, <<>>))

Handler(s) == /\ s.h \in 0 .. Len(s.stk)
              /\ s.h # 0 => ~s.stk[s.h].spent
              /\ \A k \in 1 .. Len(s.stk) : k > s.h => s.stk[k].spent
==============================================================================
