----------------------------- MODULE MathTrace -----------------------------
(* Recorded evaluations of elementary functions.  State: how far the trace was *)
(* read and the history H of every (function, arguments, result) seen in it.   *)
(* A step is allowed when each lane meets the requirement for its own          *)
(* arguments and agrees with the history: the result of a lane is a function   *)
(* of that lane's arguments only, whatever its position, its neighbours, or    *)
(* the moment of the call.                                                     *)
EXTENDS MathFns, FpEnv, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, H, E
vars == <<t,i,H,E>>
\* what is judged: "special" the arguments with a specified result, "accuracy"
\* the others and the independence of lanes, "all" everything
Mode == IOEnv.MODE
Judged(fn,a,b,f) == \/ Mode = "all" \/ (Mode = "accuracy") = (Special(fn,a,b,f).k = "none")
\* What the library options leave open (o: 0 none, 1 NaN is propagated, 2 errors are
\* handled as well): NaN without propagation; without error handling infinite
\* arguments, domain and pole errors, results beyond the range, and the sign of zero.
Open(o,fn,a,b,ref,f) ==
  LET two == b # <<>>
      nan == IsNaN(a,f) \/ (two /\ IsNaN(b,f))
      inf == IsInf(a,f) \/ (two /\ IsInf(b,f))
      sp == Special(fn,a,b,f)
  IN \/ o = 0 /\ nan
     \/ /\ o < 2 /\ ~nan
        /\ \/ inf \/ sp.k = "nan" \/ (sp.k = "is" /\ IsInf(sp.w,f))
           \/ (sp.k = "none" /\ fn # "sqrt" /\ (Top(ref) >= f.emax \/ Top(ref) <= f.emin + 2))
Meets(o,fn,a,b,r,ref,f) ==
  \/ Open(o,fn,a,b,ref,f)
  \/ LaneOk(fn,a,b,r,ref,f)
  \/ o < 2 /\ LET sp == Special(fn,a,b,f) IN sp.k = "is" /\ IsZeroF(sp.w) /\ IsZeroF(r)
JudgeLane(o,fn,a,b,r,ref,f) == Judged(fn,a,b,f) => Meets(o,fn,a,b,r,ref,f)
Lane(o,e,j,f) ==
  /\ JudgeLane(o,e.f,e.a[j],IF e.two THEN e.b[j] ELSE <<>>,e.r[j],e.ref[j],f)
  /\ IF e.f = "sin" /\ e.q # <<>> THEN JudgeLane(o,"cos",e.a[j],<<>>,e.q[j],e.qref[j],f) ELSE TRUE
Entry(e,j,f) == <<e.o,<<e.f,f.rm>>,e.a[j],IF e.two THEN e.b[j] ELSE <<>>,e.r[j],IF e.q # <<>> THEN e.q[j] ELSE <<>> >>
SameRes(x,y,f) == IF x = <<>> \/ y = <<>> THEN x = y ELSE SameF(x,y,f)
Agrees(x,S,f) == \A y \in S : (x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ x[4] = y[4])
                              => (SameRes(x[5],y[5],f) /\ SameRes(x[6],y[6],f))
StepOk(o,e,f,S) ==
                 /\ e.o # "crash"
                 /\ Len(e.r) = Len(e.a)
                 /\ \A j \in 1..Len(e.a) : Lane(o,e,j,f)
                 /\ Mode # "special" => \A j \in 1..Len(e.a) : Agrees(Entry(e,j,f),S,f)
Init == t \in 1..Len(Traces) /\ i = 1 /\ H = {} /\ E = Env0
Next == /\ i <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i]
               obs == IF Traces[t].env = 1 THEN e.env ELSE <<>>
               f == InMode(Fmt(Traces[t].s),E.rm)
               call == e.o \notin {"crash","env"}
               oo == Traces[t].opt
               \* what is left open may differ from call to call
               judged == {k \in 1..Len(e.a) : oo = 2 \/ ~Open(oo,e.f,e.a[k],IF e.two THEN e.b[k] ELSE <<>>,e.ref[k],f)}
               new == IF call THEN {Entry(e,j,f) : j \in judged} ELSE {}
           IN /\ H' = H \cup new /\ E' = EnvNext(e,E,obs)
              /\ IF EnvOk(e,E,obs,{},{}) /\ (e.o = "env" \/ (call /\ StepOk(oo,e,f,H \cup new))) THEN TRUE
                 ELSE PrintT(<<"MISMATCH",t,i>>)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Traces[k].ev) + Total(k-1)
Consumed == LET want == Total(Len(Traces)) IN
            IF TLCGet("distinct") = want THEN PrintT(<<"CONSUMED",Len(Traces),want>>)
            ELSE PrintT(<<"STUCK",TLCGet("distinct"),want>>) /\ FALSE
=============================================================================
