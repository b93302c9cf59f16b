------------------------------- MODULE Trace -------------------------------
(* Recorded behaviours of the real library, checked as behaviours of           *)
(* VecMachine.  Every trace is one initial state; every recorded event must be *)
(* a step of the machine.  A step the machine forbids is reported (MISMATCH)   *)
(* and the registers follow the recorded outcome so that later steps are still *)
(* judged.  The postcondition demands that every trace was consumed entirely.  *)
EXTENDS VecMachine, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NV == 6
NM == 5
VARIABLES t, i, V, M, R, E
vars == <<t,i,V,M,R,E>>
Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ V = [k \in 1..NV |-> <<>>] /\ M = [k \in 1..NM |-> <<>>] /\ R = <<>>
        /\ E = Env0
Next == /\ i <= Len(Traces[t].ev)
        /\ LET tr == Traces[t]
               e == tr.ev[i]
               h == [k |-> tr.k, s |-> tr.s, n |-> tr.n, fused |-> tr.fused, opt |-> tr.opt, rm |-> E.rm]
               out == Apply(h,e,V,M,R)
               obs == IF tr.env = 1 THEN e.env ELSE <<>>
           IN /\ V' = out.V /\ M' = out.M /\ R' = out.R /\ E' = EnvNext(e,E,obs)
              /\ IF out.ok /\ EnvOk(e,E,obs,FlagsNot(h,e,V),FlagsMust(h,e,V)) THEN TRUE ELSE PrintT(<<"MISMATCH",t,i>>)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Traces[k].ev) + Total(k-1)
Consumed == LET want == Total(Len(Traces)) IN
            IF TLCGet("distinct") = want THEN PrintT(<<"CONSUMED",Len(Traces),want>>)
            ELSE PrintT(<<"STUCK",TLCGet("distinct"),want>>) /\ FALSE
=============================================================================
