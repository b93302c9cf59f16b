------------------------------ MODULE CpuModel ------------------------------
(* A processor as software sees it: answers to cpuid leaves, the XCR0 register *)
(* and the flags the operating system publishes.  Report is what feature       *)
(* detection has to say about it; the machine below is a detector at work, and *)
(* TLC checks that it never faults, never uses an answer that means nothing,   *)
(* and arrives at Report for every processor of the family Procs.  The same    *)
(* processors (PROC lines) are put under the real code, see CpuTrace.          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Deep
Bits == 0..31
OsX == 27                                        \* leaf 1 ecx: XGETBV usable
SseC == [has_sse3 |-> 0, has_ssse3 |-> 9, has_sse4_1 |-> 19, has_sse4_2 |-> 20]
SseD == [has_sse |-> 25, has_sse2 |-> 26]
AvxC == [has_avx |-> 28, has_fma |-> 12, has_f16c |-> 29]
AvxB == [has_avx2 |-> 5]
Avx512 == [has_avx512f |-> 16, has_avx512dq |-> 17, has_avx512cd |-> 28, has_avx512bw |-> 30, has_avx512vl |-> 31]
PlainD == [has_msr |-> 5, has_cx8 |-> 8, has_sep |-> 11, has_cmov |-> 15, has_clfsh |-> 19]
PlainC == [has_cmpxchg16b |-> 13]
\* names under which the operating system lists the SSE family, in order of introduction
OsName == [has_sse |-> "sse", has_sse2 |-> "sse2", has_sse3 |-> "pni", has_ssse3 |-> "ssse3", has_sse4_1 |-> "sse4_1", has_sse4_2 |-> "sse4_2"]
\* registers as the detector may rely on them
C1(p) == IF p.max >= 1 THEN p.l1c ELSE {}
D1(p) == IF p.max >= 1 THEN p.l1d ELSE {}
B7(p) == IF p.max >= 7 THEN p.l7b ELSE {}
Named(tab,reg) == {n \in DOMAIN tab : tab[n] \in reg}
Xcr(p,need) == OsX \in C1(p) /\ need \subseteq p.xcr0
Report(p) ==
  (IF p.vendor = "GenuineIntel" THEN {"is_intel"} ELSE {}) \cup (IF p.vendor = "AuthenticAMD" THEN {"is_amd"} ELSE {})
  \cup Named(PlainD,D1(p)) \cup Named(PlainC,C1(p))
  \cup (IF OsX \in C1(p) THEN {"has_xsave"} ELSE {})
  \cup {n \in Named(SseC,C1(p)) \cup Named(SseD,D1(p)) : IF OsX \in C1(p) THEN 1 \in p.xcr0 ELSE OsName[n] \in p.os}
  \cup (IF Xcr(p,{1,2}) THEN Named(AvxC,C1(p)) \cup Named(AvxB,B7(p)) ELSE {})
  \cup (IF Xcr(p,{1,2,5,6,7}) THEN Named(Avx512,B7(p)) ELSE {})
\* capabilities whose report is left open: F16C is usable only with AVX state, the leaf alone may be reported too;
\* XSAVE present but not enabled
Open(p) == (IF ~Xcr(p,{1,2}) /\ 29 \in C1(p) THEN {"has_f16c"} ELSE {}) \cup (IF OsX \notin C1(p) /\ 26 \in C1(p) THEN {"has_xsave"} ELSE {})
ReportOk(p,has) == (has \ Open(p)) = (Report(p) \ Open(p))
\* ------------------------------------------------------------- the processors
Std == [vendor |-> "GenuineIntel", max |-> 31, l1c |-> Bits, l1d |-> Bits, l7b |-> Bits, sub |-> {}, junk |-> {}, xcr0 |-> {0,1,2,5,6,7}, os |-> {"sse","sse2","pni","ssse3","sse4_1","sse4_2"}]
NoX(p) == [p EXCEPT !.l1c = @ \ {OsX}, !.xcr0 = {}]
OneOff == {Bits, {}} \cup {{b} : b \in Bits} \cup {Bits \ {b} : b \in Bits}
OsSets == {{}, {"sse"}, {"sse","sse2"}, {"sse","sse2","pni"}, {"sse","sse2","pni","ssse3"}, {"sse","sse2","pni","ssse3","sse4_1"}, Std.os}
Junk == {{}, Bits}
Regs == {[Std EXCEPT !.l1c = x \cup {OsX}] : x \in OneOff} \cup {[Std EXCEPT !.l1d = x] : x \in OneOff} \cup {[Std EXCEPT !.l7b = x] : x \in OneOff}
  \cup {NoX([Std EXCEPT !.l1c = x]) : x \in OneOff} \cup {NoX([Std EXCEPT !.l1d = x]) : x \in OneOff} \cup {NoX([Std EXCEPT !.l7b = x]) : x \in OneOff}
  \cup {[Std EXCEPT !.l1c = {OsX}, !.l1d = {}, !.l7b = {b}] : b \in Bits}
State == {[Std EXCEPT !.xcr0 = x \cup {0}, !.sub = s] : x \in SUBSET {1,2,5,6,7}, s \in Junk}
  \cup {NoX([Std EXCEPT !.os = o, !.sub = s]) : o \in OsSets, s \in Junk}
Ident == {[Std EXCEPT !.vendor = v, !.max = m, !.junk = j, !.sub = s] : v \in {"GenuineIntel","AuthenticAMD","AuthenticIMD","GenuineInteI","CentaurHauls","authenticAMD"},
                 m \in {0,1,2,6,7,8,13,31}, j \in Junk, s \in Junk}
  \cup {NoX([Std EXCEPT !.max = m, !.junk = j]) : m \in {0,1,2,6,7}, j \in Junk}
Mixed == {[Std EXCEPT !.l1c = (Bits \ {b}) \cup {OsX}, !.l7b = Bits \ {c}, !.xcr0 = x \cup {0}, !.sub = {5,16}] : b \in {0,9,12,19,20,28,29}, c \in {5,16,17,28,30,31}, x \in SUBSET {1,2,5,6,7}}
  \cup {NoX([Std EXCEPT !.l1c = Bits \ {b}, !.os = o]) : b \in {0,9,19,20,28,29,26,13}, o \in OsSets}
  \cup {NoX([Std EXCEPT !.l1d = Bits \ {b}, !.os = o]) : b \in {25,26,5,8}, o \in OsSets}
Procs == Regs \cup State \cup Ident \cup (IF Deep THEN Mixed ELSE {})
\* ------------------------------------------------------------ questions asked
\* an answer means something when the leaf exists; xgetbv faults unless enabled
Ask(p,leaf,sub) == IF leaf > p.max THEN [b |-> p.junk, c |-> p.junk, d |-> p.junk]
                   ELSE CASE leaf = 1 -> [b |-> p.junk, c |-> p.l1c, d |-> p.l1d]
                          [] leaf = 7 -> [b |-> IF sub = 0 THEN p.l7b ELSE p.sub, c |-> p.junk, d |-> p.junk]
                          [] OTHER -> [b |-> p.junk, c |-> p.junk, d |-> p.junk]
XgetbvLegal(p) == p.max >= 1 /\ OsX \in p.l1c
VARIABLES p, pc, c1, d1, b7, x, o
vars == <<p,pc,c1,d1,b7,x,o>>
Init == p \in Procs /\ pc = "start" /\ c1 = {} /\ d1 = {} /\ b7 = {} /\ x = {} /\ o = {}
Leaf1 == /\ pc = "start" /\ pc' = "leaf1" /\ UNCHANGED <<p,b7,x,o>>
         /\ IF p.max >= 1 THEN c1' = Ask(p,1,0).c /\ d1' = Ask(p,1,0).d ELSE UNCHANGED <<c1,d1>>
Leaf7 == /\ pc = "leaf1" /\ pc' = "leaf7" /\ UNCHANGED <<p,c1,d1,x,o>>
         /\ IF p.max >= 7 THEN b7' = Ask(p,7,0).b ELSE UNCHANGED b7
OsState == /\ pc = "leaf7" /\ pc' = IF OsX \in c1 /\ ~XgetbvLegal(p) THEN "fault" ELSE "done"
           /\ UNCHANGED <<p,c1,d1,b7>>
           /\ IF OsX \in c1 THEN x' = p.xcr0 /\ o' = o ELSE o' = p.os /\ x' = x
Emit == pc = "done" /\ pc' = "end" /\ UNCHANGED <<p,c1,d1,b7,x,o>>
        /\ PrintT(ToString(<<"PROC",p.vendor,p.max,p.l1c,p.l1d,p.l7b,p.sub,p.junk,p.xcr0,p.os>>))
Next == Leaf1 \/ Leaf7 \/ OsState \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what the detector knows is a processor with those answers and nothing else
Known == [vendor |-> p.vendor, max |-> 31, l1c |-> c1, l1d |-> d1, l7b |-> b7, sub |-> {}, junk |-> {}, xcr0 |-> x, os |-> o]
Arrives == pc \in {"done","end"} => Report(Known) = Report(p)
NoFault == pc # "fault"
\* more state enabled, more leaves: never fewer capabilities; nothing beyond what the leaves list
Laws == pc = "start" =>
  /\ \A y \in SUBSET {1,2,5,6,7} : Report(p) \subseteq Report([p EXCEPT !.xcr0 = @ \cup y])
  /\ ("is_intel" \in Report(p) => "is_amd" \notin Report(p))
  /\ (p.max = 0 => Report(p) \subseteq {"is_intel","is_amd"})
  /\ (p.max < 7 => Report(p) \cap (DOMAIN Avx512 \cup DOMAIN AvxB) = {})
  /\ Report([p EXCEPT !.junk = Bits, !.sub = Bits]) = Report(p)
  /\ (Report(p) \cap DOMAIN Avx512 # {} => {1,2,5,6,7} \subseteq p.xcr0)
Detects == <>(pc = "end")
=============================================================================
