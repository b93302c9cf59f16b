------------------------------ MODULE AbiModel ------------------------------
(* Selection of ABI tags and the size / alignment / type traits.              *)
(* A tag is [n |-> lanes, a |-> alignment]; alignment 0: chosen by the        *)
(* implementation, -1: packed (element aligned), -2: the scalar tag.          *)
(* The configuration is the widest register of the instruction set (W bytes). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Max2(x,y) == IF x > y THEN x ELSE y
Min2(x,y) == IF x < y THEN x ELSE y
Scalar == [n |-> 1, a |-> -2]
Size(t) == t.n
\* ------------------------------------------------------------------ selection
\* every tag of the right size is acceptable; the first acceptable hint wins,
\* a single aligned hint of another size is resized; otherwise the choice is free
Fits(t,n) == Size(t) = n
DeduceOk(n,hints,r) ==
  LET fit == {i \in 1..Len(hints) : Fits(hints[i],n)}
      last == hints[Len(hints)]
  IN /\ Size(r) = n
     /\ IF fit # {} THEN r = hints[CHOOSE i \in fit : \A j \in fit : i <= j]
        ELSE (Len(hints) > 0 /\ last.a # -2) => r.a = last.a
\* packed alignment is the largest there is ("most aligned")
AlignLess(x,y) == (y = -1 /\ x # -1) \/ (x # -1 /\ y # -1 /\ x < y)
RECURSIVE MaxAlign(_,_)
MaxAlign(s,i) == IF i = 1 THEN s[1].a ELSE LET m == MaxAlign(s,i-1) IN IF AlignLess(m,s[i].a) THEN s[i].a ELSE m
RECURSIVE MaxSize(_,_)
MaxSize(s,i) == IF i = 1 THEN s[1].n ELSE Max2(MaxSize(s,i-1),s[i].n)
Common(tags) == [n |-> MaxSize(tags,Len(tags)), a |-> MaxAlign(tags,Len(tags))]

\* ------------------------------------------------------ laws of the selection
Tags == {Scalar} \cup [n : {1,2,3,8}, a : {-1,0,16,32}]
CommonLaws ==
  /\ \A x \in Tags : Common(<<x>>) = x /\ Common(<<x,x>>) = x
  /\ \A x,y \in Tags : Common(<<x,y>>) = Common(<<y,x>>)
  /\ \A x,y,z \in Tags : Common(<<x,y,z>>) = Common(<<x,Common(<<y,z>>)>>)
                         /\ Common(<<x,y,z>>) = Common(<<z,y,x>>)
DeduceLaws == \A x,y \in Tags, n \in {1,2,3,8} :
  /\ \E r \in Tags : DeduceOk(n,<<x,y>>,r)                       \* never impossible
  /\ (x.n = n => \A r \in Tags : DeduceOk(n,<<x,y>>,r) => r = x)
ASSUME CommonLaws
ASSUME DeduceLaws

\* ----------------------------------------------------------- vector and mask
AllOnes(s) == \A i \in 1..Len(s) : s[i] = 1
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
Pow2(x) == x \in {1,2,4,8,16,32,64,128,256}
Vectorizable(t) == t.s <= 8
VecOk(q,W) ==
  LET n == q.tag.n
      s == q.t.s
  IN /\ q.n = n /\ q.mn = n /\ q.szv = n
     /\ q.size >= n * s /\ q.size % q.align = 0 /\ Pow2(q.align) /\ q.msize % q.malign = 0
     /\ q.align >= q.ta
     /\ (q.tag.a > 0) => (q.align >= q.tag.a /\ q.malign >= (IF Vectorizable(q.t) /\ n > 1 THEN Min2(q.tag.a,W) ELSE 1))
     /\ q.tag.a \in {-1,-2} => (q.size = n * s /\ q.align = q.ta)
     \* memory
     /\ q.ma = Max2(q.align,q.ta) /\ q.mma = q.malign
     /\ \A i \in 1..Len(q.mau) : q.mau[i].ma = Max2(q.align,q.mau[i].a)
     \* native view: covers all lanes, fits the object
     /\ q.nds * q.ndt >= n * s /\ q.nds * q.ndt <= q.size /\ q.ndt \in {s,16,32}
     /\ q.mnds * q.mndt <= q.msize /\ q.mndt \in {1,16,32} /\ q.mnds >= 1
     /\ q.ndt > s => (q.ndt <= W /\ q.nds = (n * s + q.ndt - 1) \div q.ndt)
     /\ q.ndt = s => (q.nds = n \/ s >= 16)
     \* wherever vector registers are promised they are used: at least the register size in alignment
     /\ AllOnes(q.same) /\ AllOnes(q.is) /\ AllZero(q.isnot)
     /\ (q.what = "fix" => q.tag = [n |-> n, a |-> 0])
     \* tags documented to stand for a register of the instruction set
     /\ (q.what = "sse" \/ (q.what = "compat" /\ Vectorizable(q.t))) => (n * s = 16 /\ q.size = 16 /\ q.align = 16 /\ q.ndt = 16 /\ q.nds = 1)
     /\ (q.what = "avx" \/ (q.what = "nat" /\ Vectorizable(q.t) /\ W = 32)) => (n * s = 32 /\ q.size = 32 /\ q.align = 32 /\ q.ndt = 32 /\ q.nds = 1)
SelOk(q,W) ==
  IF ~Vectorizable(q.t) THEN q.r.n = 1 /\ q.dn = 1
  ELSE /\ q.what = "native" => q.r.n * q.t.s = W
       \* binary compatible between translation units whatever their instruction set
       /\ q.what = "compat" => q.r = [n |-> 16 \div q.t.s, a |-> 16]
       /\ q.dn = 16 \div q.t.s
RebOk(q) == /\ q.rn = q.n /\ Size(q.r) = q.n
            /\ q.t = q.u
            /\ (q.what = "v") = (q.isv = 1) /\ (q.what = "m") = (q.ism = 1)
            /\ DeduceOk(q.n,<<q.from>>,q.r)
Ok(q,W) == CASE q.q = "vec" -> VecOk(q,W)
             [] q.q = "ded" -> DeduceOk(q.n,q.hints,q.r) /\ q.rn = q.n
             [] q.q = "com" -> q.r = Common(q.hints)
             [] q.q = "sel" -> SelOk(q,W)
             [] q.q \in {"reb","rsz"} -> RebOk(q)
             [] q.q = "not" -> AllZero(q.isnot)
             [] q.q = "flag" -> AllOnes(q.is) /\ AllZero(q.isnot)

\* ---------------------------------------------------------- recorded answers
\* one trace per (instruction set, element type): h.w widest register, ev answers
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
vars == <<t,i>>
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[t].ev)
        /\ IF Ok(Traces[t].ev[i],Traces[t].w) THEN TRUE ELSE PrintT(<<"MISMATCH",t,i>>)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
\* every size, alignment and trait the property ranges over was asked about
Covered(tr) ==
  /\ \A n \in 1..32, a \in {-1,0,16,32} : \E j \in 1..Len(tr.ev) : tr.ev[j].q = "vec" /\ tr.ev[j].tag = [n |-> n, a |-> a]
  /\ \A n \in 1..32 : \E j \in 1..Len(tr.ev) : tr.ev[j].q = "ded" /\ tr.ev[j].n = n /\ tr.ev[j].hints = <<>>
  /\ \A qq \in {"com","sel","reb","rsz","not","flag"} : \E j \in 1..Len(tr.ev) : tr.ev[j].q = qq
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Traces[k].ev) + Total(k-1)
Consumed == LET want == Total(Len(Traces)) IN
            IF TLCGet("distinct") = want /\ \A k \in 1..Len(Traces) : Covered(Traces[k]) THEN PrintT(<<"CONSUMED",Len(Traces),want>>)
            ELSE PrintT(<<"STUCK",TLCGet("distinct"),want>>) /\ FALSE
=============================================================================
