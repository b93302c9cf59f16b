------------------------------ MODULE CpuTrace ------------------------------
(* The real feature detection running on the processors of CpuModel: every     *)
(* question it asked was answered as that processor answers it, xgetbv was     *)
(* executed only where it exists, and the report is the required one.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CM == INSTANCE CpuModel WITH Deep <- FALSE, p <- 0, pc <- "", c1 <- {}, d1 <- {}, b7 <- {}, x <- {}, o <- {}
Traces == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == {s[j] : j \in 1..Len(s)}
Proc(h) == [vendor |-> h.vendor, max |-> h.max, l1c |-> Set(h.l1c), l1d |-> Set(h.l1d), l7b |-> Set(h.l7b), sub |-> Set(h.sub), junk |-> Set(h.junk), xcr0 |-> Set(h.xcr0), os |-> Set(h.os)]
VARIABLES t, i
vars == <<t,i>>
Ok(h,e) == LET p == Proc(h) IN
  CASE e.ev = "cpuid" -> \/ h.virtual = 0
                         \/ e.leaf = 0
                         \/ [b |-> Set(e.b), c |-> Set(e.c), d |-> Set(e.d)] = CM!Ask(p,e.leaf,e.sub)
    [] e.ev = "xgetbv" -> CM!XgetbvLegal(p) /\ e.index = 0 /\ Set(e.bits) = p.xcr0
    [] e.ev = "report" -> CM!ReportOk(p,Set(e.has))
    [] OTHER -> FALSE
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[t].ev)
        /\ IF Ok(Traces[t].h,Traces[t].ev[i]) THEN TRUE ELSE PrintT(<<"MISMATCH",t,i>>)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Traces[k].ev) + Total(k-1)
Ends(k) == LET e == Traces[k].ev IN Len(e) >= 1 /\ e[Len(e)].ev \in {"report","fault"}
Consumed == LET want == Total(Len(Traces)) IN
            IF TLCGet("distinct") = want /\ \A k \in 1..Len(Traces) : Ends(k) THEN PrintT(<<"CONSUMED",Len(Traces),want>>)
            ELSE PrintT(<<"STUCK",TLCGet("distinct"),want>>) /\ FALSE
=============================================================================
