------------------------------- MODULE VecGen -------------------------------
(* VecMachine run forward at a small scope: 3 lanes, all masks, memory of a    *)
(* few cells.  Checks that the machine is total and deterministic there, obeys *)
(* its frame conditions and the algebraic laws its operations are used for,    *)
(* and prints every transition (STEP ...) so that it can be replayed into the  *)
(* real library.                                                               *)
EXTENDS VecMachine, TLC
CONSTANTS Mode, Emit
N == 3
h0 == [k |-> "u", s |-> 1, n |-> N, fused |-> 0, rm |-> "ne", opt |-> 2]
VARIABLES V, M, R, depth
vars == <<V,M,R,depth>>
Bit == {0,1}
Mask == [1..N -> Bit]
O3 == <<0,0,0>>
Ev0 == [o |-> "", f |-> "", w |-> "v", d |-> 0, a |-> 0, b |-> 0, c |-> 0, k |-> 0, x |-> <<>>, y |-> <<>>, r |-> <<>>, q |-> <<>>]
Vec0 == << <<<<1>>,<<2>>,<<3>>>>, <<<<4>>,<<5>>,<<6>>>>, <<<<7>>,<<8>>,<<9>>>> >>
Cell == 5
\* ---------------------------------------------------------------- the events
Pairs == {<<0,1>>,<<1,0>>,<<0,0>>}
MaskEvents ==
  {[Ev0 EXCEPT !.o = "mbin",!.f = g,!.d = 2,!.a = p[1],!.b = p[2]] :
       g \in {"mand","mor","mxor","mland","mlor","meq","mne"}, p \in Pairs}
  \cup {[Ev0 EXCEPT !.o = "mbin",!.f = g,!.w = "vq",!.d = p[1],!.b = p[2]] : g \in {"mand","mor","mxor"}, p \in Pairs}
  \cup {[Ev0 EXCEPT !.o = "mun",!.f = g,!.d = d] : g \in {"not","neg","bnot","pos"}, d \in {0,2}}
  \cup {[Ev0 EXCEPT !.o = "mred",!.f = g] : g \in {"all","any","none","some","count"}}
  \cup (IF SumT(M[1],1) = 0 THEN {} ELSE {[Ev0 EXCEPT !.o = "mred",!.f = g] : g \in {"minidx","maxidx"}})
  \cup {[Ev0 EXCEPT !.o = "mget",!.k = k] : k \in 0..N-1}
  \cup {[Ev0 EXCEPT !.o = "mset",!.f = g,!.k = k,!.x = <<v>>] : g \in {"asg","and","or","xor"}, k \in 0..N-1, v \in Bit}
  \cup {[Ev0 EXCEPT !.o = "meset",!.f = g,!.d = d,!.a = 1,!.k = i + 64*j] : g \in {"cp","sw","xor"}, d \in 0..1, i \in 0..N-1, j \in 0..N-1}
  \cup {[Ev0 EXCEPT !.o = "mmov",!.d = 2,!.a = 1]}
  \cup {[Ev0 EXCEPT !.o = "mldm",!.d = 0,!.c = 1,!.x = x] : x \in Mask}
Mask3Events ==            \* operations that read three masks
  {[Ev0 EXCEPT !.o = "mblend",!.d = d,!.a = 0,!.b = 1,!.c = 2] : d \in 0..2}
BlendEvents ==
  {[Ev0 EXCEPT !.o = "blend",!.d = d,!.a = a,!.b = b,!.c = 0] : d \in 0..2, a \in 0..1, b \in 0..1}
MemEvents ==
  {[Ev0 EXCEPT !.o = o,!.f = "u",!.b = 1,!.w = "keep",!.c = c,!.k = k] : o \in {"ld","st"}, c \in {-1,0}, k \in 0..(Cell - N)}
  \cup {[Ev0 EXCEPT !.o = o,!.b = 1,!.w = "keep",!.d = 1,!.a = 1,!.c = c,!.k = k] : o \in {"mld","mst"}, c \in {-1,0}, k \in 0..(Cell - N)}
Events == CASE Mode = "mask" -> IF M[3] = O3 THEN MaskEvents ELSE {}
            [] Mode = "mask3" -> Mask3Events
            [] Mode = "blend" -> BlendEvents
            [] Mode = "mem" -> MemEvents
\* candidate outcomes of an event
Outcomes(e) ==
  CASE e.o = "mred" -> 0..N
    [] e.o = "mget" -> Bit
    [] e.o \in {"mbin","mun","mset","meset","mmov","mldm","mblend"} -> Mask
    [] e.o = "mld" -> Mask
    [] e.o \in {"blend","ld"} -> [1..N -> {<<V[j][i][1]>> : j \in 1..3, i \in 1..N} \cup {<<R[i]>> : i \in 1..Len(R)}]
    [] e.o \in {"st","mst"} -> LET vals == {R[i] : i \in 1..Len(R)} \cup (IF e.o = "st" THEN {V[e.a+1][i][1] : i \in 1..N} ELSE Bit)
                               IN {[i \in 1..Len(R) |-> IF i > e.k /\ i <= e.k + N THEN w[i-e.k] ELSE IF i = g[1] THEN g[2] ELSE R[i]] :
                                     w \in [1..N -> vals], g \in {<<i,v>> : i \in {0,1,Len(R)}, v \in vals}}
Allowed(e) == {r \in Outcomes(e) : Apply(h0,[e EXCEPT !.r = r],V,M,R).ok}
Res(e) == CHOOSE r \in Allowed(e) : TRUE
Init == /\ V = Vec0 /\ depth = 0
        /\ CASE Mode = "mask" -> M \in [1..3 -> Mask] /\ M[3] = O3 /\ R = <<>>
             [] Mode = "mask3" -> M \in [1..3 -> Mask] /\ R = <<>>
             [] Mode = "blend" -> M \in {<<m,O3,O3>> : m \in Mask} /\ R = <<>>
             [] Mode = "mem" -> M \in {<<m,<<1,0,1>>,O3>> : m \in Mask} /\ R = <<11,12,0,1,0>>
Next == /\ depth = 0 /\ depth' = 1
        /\ \E e \in Events :
             LET r == Res(e)
                 out == Apply(h0,[e EXCEPT !.r = r],V,M,R)
             IN /\ V' = out.V /\ M' = out.M /\ R' = out.R
                /\ (Emit => PrintT(ToString(<<"STEP",e.o,e.f,e.w,e.d,e.a,e.b,e.c,e.k,e.x,M,R>>)))
Spec == Init /\ [][Next]_vars
\* ----------------------------------------------------------------- properties
\* every event has exactly one allowed outcome here
Total == depth = 0 => \A e \in Events : \E r \in Allowed(e) : \A q \in Allowed(e) : q = r
\* only the destination changes
Frame == depth = 0 => \A e \in Events :
   LET out == Apply(h0,[e EXCEPT !.r = Res(e)],V,M,R) IN
   /\ \A j \in 1..3 : (e.o \notin {"blend","ld"} \/ j # e.d+1) => out.V[j] = V[j]
   /\ \A j \in 1..3 : (e.o \in {"mred","mget","ld","st","mst","blend"} \/ j # e.d+1) => out.M[j] = M[j] \/ (e.o = "meset" /\ e.f = "sw" /\ j = e.a+1)
   /\ (e.o = "meset" /\ e.f = "sw") => \* an exchange loses nothing, and a second one undoes it
        /\ SumT(out.M[1],1) + SumT(out.M[2],1) = SumT(M[1],1) + SumT(M[2],1)
        /\ LET o2 == Apply(h0,[e EXCEPT !.r = M[e.d+1]],out.V,out.M,out.R) IN o2.ok /\ o2.M = M
   /\ (e.o \notin {"st","mst"}) => out.R = R
   /\ e.o \in {"st","mst"} => \A j \in 1..Len(R) : (j <= e.k \/ j > e.k + N \/ (e.c >= 0 /\ M[1][j - e.k] = 0)) => out.R[j] = R[j]
MB(g,a,b) == Res([Ev0 EXCEPT !.o = "mbin",!.f = g,!.d = 2,!.a = a,!.b = b])
Flip(m) == [i \in 1..N |-> 1 - m[i]]
Rd(g,m) == MReduce(g,m)
MaskLaws == (Mode = "mask" /\ depth = 0) =>
  LET a == M[1]
      b == M[2]
  IN /\ MB("mand",0,1) = MB("mand",1,0) /\ MB("mor",0,1) = MB("mor",1,0)
     /\ Flip(MB("mand",0,1)) = [i \in 1..N |-> MBool("mor",Flip(a)[i],Flip(b)[i])]       \* De Morgan
     /\ MB("mne",0,1) = MB("mxor",0,1) /\ MB("meq",0,1) = Flip(MB("mxor",0,1))
     /\ MB("mland",0,1) = MB("mand",0,1) /\ MB("mlor",0,1) = MB("mor",0,1)
     /\ MB("mxor",0,0) = O3 /\ MB("mand",0,0) = a
     /\ Rd("all",a) = Rd("none",Flip(a)) /\ Rd("any",a) = 1 - Rd("none",a)
     /\ Rd("some",a) = B01(Rd("any",a) = 1 /\ Rd("all",a) = 0)
     /\ Rd("count",a) + Rd("count",Flip(a)) = N
     /\ Rd("count",a) + Rd("count",b) = Rd("count",MB("mand",0,1)) + Rd("count",MB("mor",0,1))
     /\ Rd("any",a) = 1 => /\ a[Rd("minidx",a)+1] = 1 /\ a[Rd("maxidx",a)+1] = 1 /\ Rd("minidx",a) <= Rd("maxidx",a)
                           /\ \A i \in 1..N : a[i] = 1 => Rd("minidx",a) <= i-1 /\ i-1 <= Rd("maxidx",a)
\* storing and loading back under the same mask is the identity on selected lanes
RoundTrip == (Mode = "mem" /\ depth = 0) => \A k \in 0..(Cell - N), c \in {-1,0} :
  LET st == [Ev0 EXCEPT !.o = "st",!.f = "u",!.b = 1,!.c = c,!.k = k]
      mem == Apply(h0,[st EXCEPT !.r = Res(st)],V,M,R).R
      ld == [Ev0 EXCEPT !.o = "ld",!.f = "u",!.w = "keep",!.b = 1,!.d = 2,!.c = c,!.k = k]
      got == [i \in 1..N |-> IF c = -1 \/ M[1][i] = 1 THEN V[1][i] ELSE V[3][i]]
  IN Apply(h0,[ld EXCEPT !.r = got],V,M,mem).ok
=============================================================================
