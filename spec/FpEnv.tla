------------------------------- MODULE FpEnv -------------------------------
(* The floating-point environment as part of the machine's state.             *)
EXTENDS Words
\* the floating-point environment E: rounding mode E.rm and raised exception flags E.fl (a 0/1
\* tuple).  Only the env.* steps, which are the user's, change the mode or clear a flag; any other
\* step may at most raise flags.  A step that must not raise the flags in no, and has to raise those
\* in must (positions in E.fl: invalid, division by zero, overflow, underflow, inexact).  obs: <<mode, control bits unchanged, flags>> after the step, or <<>>.
EnvWant(e,E) == IF e.o # "env" THEN E
                ELSE IF e.f = "rm" THEN [E EXCEPT !.rm = e.w]
                ELSE IF e.f = "raise" THEN [E EXCEPT !.fl = [j \in 1..Len(E.fl) |-> Max(E.fl[j],e.x[j])]]
                ELSE [E EXCEPT !.fl = [j \in 1..Len(E.fl) |-> 0]]           \* env.clear
EnvOk(e,E,obs,no,must) ==
  obs = <<>> \/ /\ obs[1] = EnvWant(e,E).rm /\ obs[2] = 1
                /\ \A j \in 1..Len(E.fl) : EnvWant(e,E).fl[j] <= obs[3][j]
                /\ \A j \in no : obs[3][j] = EnvWant(e,E).fl[j]
                /\ \A j \in must : obs[3][j] = 1
EnvNext(e,E,obs) == IF obs = <<>> THEN EnvWant(e,E) ELSE [EnvWant(e,E) EXCEPT !.fl = obs[3]]
Env0 == [rm |-> "ne", fl |-> <<0,0,0,0,0>>]
=============================================================================
