----------------------------- MODULE VecMachine -----------------------------
(* The library as a state machine.                                            *)
(* State: vector registers V (tuples of lanes, lane = word), mask registers M *)
(* (tuples of 0/1), memory R (tuple of bytes, addresses 1..Len(R)).           *)
(* A step is an event e: operation e.o, register operands e.d,e.a,e.b,e.c,    *)
(* literal lanes e.x / e.y, integer e.k and the outcome e.r, e.q.             *)
(* Apply(h,e,V,M,R) gives whether the step is allowed (ok) and the next state.*)
(* h is the configuration: element kind h.k ("i","u","f"), bytes h.s, lanes   *)
(* h.n, h.fused (multiply-add is fused) and h.rm (rounding mode in force).    *)
EXTENDS Floats, FpEnv

\* ------------------------------------------------------------- lane meaning
F(h) == InMode(Fmt(h.s),h.rm)
Signed(h) == h.k = "i"
\* results that are NaN may be any NaN
SameR(h,r,w) == IF h.k = "f" THEN SameF(r,w,F(h)) ELSE r = w

EqL(h,a,b) == IF h.k = "f" THEN FEq(a,b,F(h)) ELSE a = b
LtL(h,a,b) == IF h.k = "f" THEN FLt(a,b,F(h)) ELSE Lt(Signed(h),a,b)
Nan1(h,a) == h.k = "f" /\ IsNaN(a,F(h))
Nan2(h,a,b) == h.k = "f" /\ Unordered(a,b,F(h))

ShCount(b) == Nat_(b)              \* a count word in 0..width-1
\* is r an allowed result of the binary lane operation o?
IntBin(o,sg,a,b) ==
  CASE o = "add" -> Add(a,b)   [] o = "sub" -> Sub(a,b)   [] o = "mul" -> Mul(a,b)
    [] o = "div" -> (IF sg THEN SDiv(a,b) ELSE UDiv(a,b))
    [] o = "mod" -> (IF sg THEN SMod(a,b) ELSE UMod(a,b))
    [] o = "and" -> AndW(a,b)  [] o = "or"  -> OrW(a,b)   [] o = "xor" -> XorW(a,b)
    [] o = "shl" -> Shl(a,ShCount(b))
    [] o = "shr" -> (IF sg THEN Sar(a,ShCount(b)) ELSE Shr(a,ShCount(b)))
    [] o = "min" -> (IF Lt(sg,b,a) THEN b ELSE a)
    [] o = "max" -> (IF Lt(sg,a,b) THEN b ELSE a)
\* smaller/larger of two floats: one of the operands, nothing strictly beyond it
FSel(o,f,a,b,r) ==
  IF Unordered(a,b,f) THEN r \in {a,b} \/ (IsNaN(r,f))
  ELSE r \in {a,b} /\ (IF o = "min" THEN ~FLt(a,r,f) /\ ~FLt(b,r,f) ELSE ~FLt(r,a,f) /\ ~FLt(r,b,f))
FltBin(o,f,a,b,r) ==
  CASE o = "add" -> SameF(r,FAdd(a,b,f),f)
    [] o = "sub" -> SameF(r,FSub(a,b,f),f)
    [] o = "mul" -> SameF(r,FMul(a,b,f),f)
    [] o = "div" -> FDivOk(a,b,r,f)
    [] o \in {"min","max"} -> FSel(o,f,a,b,r)
BinOk(h,o,a,b,r) == IF h.k = "f" THEN FltBin(o,F(h),a,b,r) ELSE r = IntBin(o,Signed(h),a,b)
BinAll(h,o,A,B,Rr) == Len(Rr) = h.n /\ \A i \in 1..h.n : BinOk(h,o,A[i],B[i],Rr[i])

ShiftK(o,sg,a,k) == CASE o = "lsl" -> Shl(a,k) [] o = "asl" -> Shl(a,k)
                      [] o = "lsr" -> Shr(a,k) [] o = "asr" -> Sar(a,k)
                      [] o = "shli" -> Shl(a,k)
                      [] o = "shri" -> (IF sg THEN Sar(a,k) ELSE Shr(a,k))
ClampOk(h,x,lo,hi,r) ==
  IF Nan1(h,x) \/ Nan2(h,lo,hi) THEN TRUE
  ELSE IF LtL(h,x,lo) THEN EqL(h,r,lo) ELSE IF LtL(h,hi,x) THEN EqL(h,r,hi) ELSE EqL(h,r,x)
B01(p) == IF p THEN 1 ELSE 0
CmpL(h,o,a,b) ==
  CASE o = "eq" -> EqL(h,a,b)  [] o = "ne" -> ~EqL(h,a,b)
    [] o = "lt" -> LtL(h,a,b)  [] o = "gt" -> LtL(h,b,a)
    [] o = "le" -> LtL(h,a,b) \/ EqL(h,a,b)
    [] o = "ge" -> LtL(h,b,a) \/ EqL(h,a,b)
IsZeroL(h,a) == IF h.k = "f" THEN IsZeroF(a) ELSE IsZero(a)
OneL(h) == IF h.k = "f" THEN IntToF(<<1>>,FALSE,F(h)) ELSE One(h.s)
NegOk(h,a,r) == IF h.k = "f" THEN SameF(r,FNeg(a),F(h)) ELSE r = Neg(a)
AbsOk(h,a,r) == IF h.k = "f" THEN SameF(r,Mag(a),F(h)) ELSE r = (IF h.k = "i" THEN Abs_(a) ELSE a)

\* ---------------------------------------------------------- boolean vectors
MBool(o,x,y) == CASE o = "mand" -> x*y [] o = "mor" -> Max(x,y) [] o = "mxor" -> (x+y)%2
                  [] o = "mland" -> x*y [] o = "mlor" -> Max(x,y)
                  [] o = "meq" -> B01(x=y) [] o = "mne" -> B01(x#y)
RECURSIVE SumT(_,_)
SumT(s,i) == IF i > Len(s) THEN 0 ELSE s[i] + SumT(s,i+1)
RECURSIVE FirstT(_,_)
FirstT(s,i) == IF i > Len(s) THEN Len(s) ELSE IF s[i] = 1 THEN i-1 ELSE FirstT(s,i+1)
RECURSIVE LastT(_,_)
LastT(s,i) == IF i = 0 THEN Len(s) ELSE IF s[i] = 1 THEN i-1 ELSE LastT(s,i-1)
MReduce(o,m) == CASE o = "all" -> B01(SumT(m,1) = Len(m)) [] o = "any" -> B01(SumT(m,1) > 0)
                  [] o = "none" -> B01(SumT(m,1) = 0)
                  [] o = "some" -> B01(SumT(m,1) > 0 /\ SumT(m,1) < Len(m))
                  [] o = "count" -> SumT(m,1)
                  [] o = "minidx" -> FirstT(m,1) [] o = "maxidx" -> LastT(m,Len(m))

\* ------------------------------------------------------ horizontal reductions
RECURSIVE FoldI(_,_,_,_)
FoldI(o,sg,s,i) == IF i = 1 THEN s[1] ELSE IntBin(o,sg,FoldI(o,sg,s,i-1),s[i])
\* floating point: exact only if every partial combination is; the drivers use lanes where it is.
RECURSIVE FoldF(_,_,_,_)
FoldF(o,f,s,i) == IF i = 1 THEN s[1]
                  ELSE IF o = "add" THEN FAdd(FoldF(o,f,s,i-1),s[i],f)
                  ELSE IF o = "mul" THEN FMul(FoldF(o,f,s,i-1),s[i],f)
                  ELSE LET p == FoldF(o,f,s,i-1) IN IF o = "min" THEN (IF FLt(s[i],p,f) THEN s[i] ELSE p)
                                                      ELSE (IF FLt(p,s[i],f) THEN s[i] ELSE p)
ReduceOk(h,o,s,r) ==
  IF h.k = "f" THEN LET w == FoldF(o,F(h),s,Len(s)) IN IF o \in {"add","mul"} THEN SameF(w,r,F(h)) \/ (h.rm # "ne" /\ FEq(w,r,F(h))) \* the operands are chosen so that no order of evaluation rounds; the sign of zero does not depend on the order either
                                                       ELSE FEq(w,r,F(h)) \/ (IsNaN(w,F(h)) /\ IsNaN(r,F(h)))
  ELSE r = FoldI(o,Signed(h),s,Len(s))

\* ------------------------------------------------- conversions between types
\* ty = [k,s]; is r an allowed conversion of lane a of type ta to type tb?
CvtDefined(ta,tb,a) == IF ta.k = "f" /\ tb.k # "f" THEN FToIntDefined(a,Fmt(ta.s),tb.s,tb.k = "i","z") ELSE TRUE
CvtOk(rm,ta,tb,a,r) ==
  LET g == InMode(Fmt(tb.s),rm) IN
  IF ta.k # "f" /\ tb.k # "f" THEN r = Resize(ta.k = "i",a,tb.s)
  ELSE IF ta.k # "f" THEN r = IntToF(a,ta.k = "i",g)
  ELSE IF tb.k = "f" THEN (IF ta.s = tb.s THEN r = a ELSE SameF(r,FConv(a,Fmt(ta.s),g),g))
  ELSE CvtDefined(ta,tb,a) => r = FToInt(a,Fmt(ta.s),tb.s,"z")
Ty(h) == [k |-> h.k, s |-> h.s]

\* --------------------------------------- floating-point functions (one lane)
\* rm: rounding mode in force ("ne" unless the event says otherwise)
IntFn(fn,rm) == CASE fn = "ceil" -> "u" [] fn = "floor" -> "d" [] fn = "trunc" -> "z" [] fn = "round" -> "na"
                  [] fn \in {"rint","nearbyint"} -> rm
FUnOk(fn,f,rm,a,r) ==
  CASE fn = "sqrt" -> FSqrtOk(a,r,f)
    [] fn \in {"abs","fabs"} -> SameF(r,Mag(a),f)
    [] fn \in {"ceil","floor","trunc","round","rint","nearbyint"} -> SameF(r,FRint(a,f,IntFn(fn,rm)),f)
    [] fn = "logb" -> IF IsNaN(a,f) THEN IsNaN(r,f) ELSE IF IsInf(a,f) THEN r = Mag(a)
                      ELSE IF IsZeroF(a) THEN r = InfW(1,f)
                      ELSE r = LET v == FExp(a,f) IN IF v = 0 THEN ZeroW(0,f)
                               ELSE Round(IF v < 0 THEN 1 ELSE 0,NatBytes(IF v < 0 THEN -v ELSE v,2),0,FALSE,f,"ne")
FMaxNum(o,f,a,b,r) ==
  IF IsNaN(a,f) /\ IsNaN(b,f) THEN IsNaN(r,f)
  \* IEEE maxNum of a signalling NaN is NaN; C lets an implementation ignore the signal
  ELSE IF (IsSNaN(a,f) \/ IsSNaN(b,f)) /\ IsNaN(r,f) THEN TRUE
  ELSE IF IsNaN(a,f) THEN r = b ELSE IF IsNaN(b,f) THEN r = a
  ELSE r \in {a,b} /\ (IF o = "fmin" THEN ~FLt(a,r,f) /\ ~FLt(b,r,f) ELSE ~FLt(r,a,f) /\ ~FLt(r,b,f))
\* r = a - n*b for the integer n demanded by fmod (truncated) or remainder (nearest even)
\* residues: (m * 2^d) mod y by repeated squaring
RECURSIVE Pow2Mod(_,_)
Pow2Mod(d,y) == IF d <= 16 THEN BDivMod(BShl(<<1>>,d),y)[2]
                ELSE LET hf == Pow2Mod(d \div 2,y)
                         sq == BDivMod(BMul(hf,hf),y)[2]
                     IN IF d % 2 = 1 THEN BDivMod(BShl(sq,1),y)[2] ELSE sq
FmodMag(x,y) == \* |x| mod |y| as dyadic; y # 0
  IF x.e >= y.e THEN [s |-> 0, e |-> y.e, m |-> BDivMod(BMul(x.m,Pow2Mod(x.e - y.e,y.m)),y.m)[2]]
  ELSE LET d == y.e - x.e IN
       IF d > BitLen(x.m) THEN [s |-> 0, e |-> x.e, m |-> x.m]     \* |x| < 2^y.e <= |y|
       ELSE [s |-> 0, e |-> x.e, m |-> BDivMod(x.m,BShl(y.m,d))[2]]
FmodW(a,b,f) ==
  IF Unordered(a,b,f) \/ IsInf(a,f) \/ IsZeroF(b) THEN QNaN(f)
  ELSE IF IsInf(b,f) \/ IsZeroF(a) THEN a
  ELSE LET r == FmodMag(Unpack(a,f),Unpack(b,f)) IN Round(Sign(a),r.m,r.e,FALSE,f,"ne")
\* remainder: r1 = |a| mod 2|b|, then subtract |b| once or twice as nearest-even demands
RemParts(a,b,f) == \* <<rounded remainder, quotient bits mod 8 (of magnitude)>>
  LET x == Unpack(a,f)
      y == Unpack(b,f)
      y8 == [y EXCEPT !.e = y.e + 3]
      r8 == FmodMag(x,y8)                       \* |a| mod 8|b|
      \* number of whole |b| in r8: 0..7
      q0 == LET RECURSIVE cnt(_)
                cnt(k) == IF k = 0 THEN 0 ELSE IF CmpMag(MulD(y,[s |-> 0,m |-> <<k>>,e |-> 0]),r8) <= 0 THEN k ELSE cnt(k-1)
            IN cnt(7)
      r0 == IF q0 = 0 THEN [r8 EXCEPT !.s = 0]
            ELSE IF BitLen(r8.m) = 0 THEN [r8 EXCEPT !.s = 0]
            ELSE AddD([r8 EXCEPT !.s = 0],[MulD([y EXCEPT !.s = 0],[s |-> 0,m |-> <<q0>>,e |-> 0]) EXCEPT !.s = 1])
      c == CmpMag([r0 EXCEPT !.e = r0.e + 1],y)   \* 2*r0 vs |b|
      up == c > 0 \/ (c = 0 /\ q0 % 2 = 1)
      r1 == IF up THEN AddD(r0,[y EXCEPT !.s = 1]) ELSE r0
      sg == IF BitLen(r1.m) = 0 THEN Sign(a) ELSE (Sign(a) + r1.s) % 2
  IN <<Round(sg,r1.m,r1.e,FALSE,f,"ne"), (q0 + B01(up)) % 8>>
RemW(a,b,f) ==
  IF Unordered(a,b,f) \/ IsInf(a,f) \/ IsZeroF(b) THEN QNaN(f)
  ELSE IF IsInf(b,f) \/ IsZeroF(a) THEN a ELSE RemParts(a,b,f)[1]
FBinFnOk(fn,f,a,b,r) ==
  CASE fn = "copysign" -> r = SetSign(a,Sign(b))
    [] fn \in {"nextafter","nexttoward"} -> SameF(r,FNext(a,b,f),f)
    [] fn \in {"fmax","fmin"} -> FMaxNum(fn,f,a,b,r)
    [] fn = "fdim" -> (IF Unordered(a,b,f) THEN IsNaN(r,f)
                       ELSE IF FLt(b,a,f) THEN r = FSub(a,b,f)
                       ELSE r = ZeroW(0,f))
    [] fn = "fmod" -> SameF(r,FmodW(a,b,f),f)
    [] fn = "remainder" -> SameF(r,RemW(a,b,f),f)
\* fused, or one rounding per operation
FmaOk(f,only,a,b,c,r) == SameF(r,FFma(a,b,c,f),f) \/ (~only /\ SameF(r,FAdd(FMul(a,b,f),c,f),f))
\* -(a*b) + c: unfused, the product may be negated before or after it is rounded
FnmaOk(f,only,a,b,c,r) == FmaOk(f,only,FNeg(a),b,c,r) \/ (~only /\ SameF(r,FSub(c,FMul(a,b,f),f),f))
FTerOk(fn,f,only,a,b,c,r) ==
  CASE fn \in {"fma","fmadd"} -> FmaOk(f,only,a,b,c,r)
    [] fn = "fmsub"  -> FmaOk(f,only,a,b,FNeg(c),r)
    [] fn = "fnmadd" -> FnmaOk(f,only,a,b,c,r)
    [] fn = "fnmsub" -> FnmaOk(f,only,a,b,FNeg(c),r)
\* linear interpolation a + t*(b-a): a itself at t = 0, otherwise within a few
\* units of the rounding of its terms
Modest(w,f) == IsZeroF(w) \/ (FExp(w,f) \in -30..30)
LerpOk(f,a,b,t,r) ==
  IF IsNaN(a,f) \/ IsNaN(b,f) \/ IsNaN(t,f) THEN IsNaN(r,f)
  ELSE IF ~(Modest(a,f) /\ Modest(b,f) /\ Modest(t,f)) THEN TRUE
  ELSE IF IsZeroF(t) THEN FEq(r,a,f)
  ELSE LET x == Unpack(a,f)
           y == Unpack(b,f)
           z == Unpack(t,f)
           neg(d) == [d EXCEPT !.s = 1 - d.s]
           abs(d) == [d EXCEPT !.s = 0]
           d == AddD(y,neg(x))
           exact == IF IsZ(d) THEN x ELSE AddD(x,MulD(z,d))
           big == IF CmpMag(x,y) > 0 THEN abs(x) ELSE abs(y)
           err == AddD(Unpack(r,f),neg(exact))
           lim == MulD(big,AddD([s |-> 0,m |-> <<1>>,e |-> 0],abs(z)))
       IN IsFinite(r,f) /\ (IsZ(err) \/ CmpMag(err,[lim EXCEPT !.e = lim.e + 4 - f.p]) <= 0)
ClsL(fn,f,a) == CASE fn = "isnan" -> IsNaN(a,f) [] fn = "isinf" -> IsInf(a,f) [] fn = "isfinite" -> IsFinite(a,f)
                  [] fn = "isnormal" -> IsNormal(a,f) [] fn = "signbit" -> Sign(a) = 1
QCmpL(fn,f,a,b) == CASE fn = "isgreater" -> FLt(b,a,f) [] fn = "isgreaterequal" -> FLe(b,a,f)
                     [] fn = "isless" -> FLt(a,b,f) [] fn = "islessequal" -> FLe(a,b,f)
                     [] fn = "islessgreater" -> FLt(a,b,f) \/ FLt(b,a,f)
                     [] fn = "isunordered" -> Unordered(a,b,f)
\* classification codes as the driver maps FP_* macros
FpClass(f,a) == IF IsNaN(a,f) THEN 0 ELSE IF IsInf(a,f) THEN 1 ELSE IF IsZeroF(a) THEN 2 ELSE IF IsNormal(a,f) THEN 4 ELSE 3
\* rounding to integers: mode by function
IRndMode(fn,rm) == CASE fn \in {"lround","llround","iround_i","iround_l"} -> "na"
                     [] fn \in {"lrint","llrint","irint_i","irint_l"} -> rm
                     [] fn \in {"itrunc_i","itrunc_l","ltrunc","lltrunc"} -> "z"
IRndOk(fn,f,rm,a,r) == FToIntDefined(a,f,Len(r),TRUE,IRndMode(fn,rm)) => r = FToInt(a,f,Len(r),IRndMode(fn,rm))
FrexpOk(f,a,r,q) == IF ~IsFinite(a,f) THEN SameF(r,a,f)           \* exponent unspecified
                    ELSE IF IsZeroF(a) THEN r = a /\ IsZero(q)
                    ELSE r = FFrac(a,f) /\ q = IntW(FExp(a,f)+1,Len(q))
ModfOk(f,a,r,q) == IF IsNaN(a,f) THEN IsNaN(r,f) /\ IsNaN(q,f) ELSE r = FModfFrac(a,f) /\ q = FModfInt(a,f)
IlogbOk(f,a,r) == (IsFinite(a,f) /\ ~IsZeroF(a)) => r = IntW(FExp(a,f),Len(r))
ScaleOk(f,a,k,r) == SameF(r,FScale(a,ClampInt(k,5000),f),f)

\* Arguments whose result the library options in force (h.opt: 0 none, 1 NaN is
\* propagated, 2 errors are handled as well) leave open.
OptFree(h,fn,f,a,b) ==
  \/ /\ h.opt = 0 /\ Unordered(a,b,f)
     /\ fn \in {"logb","ilogb","nextafter","nexttoward","fmod","remainder","fdim","modf","frexp","scale"}
  \/ /\ h.opt < 2 /\ fn \in {"logb","ilogb"}
     /\ (IsZeroF(a) \/ IsInf(a,f))
  \/ h.opt < 2 /\ fn \in {"nextafter","nexttoward"} /\ IsInf(FNext(a,b,f),f)
  \/ h.opt < 2 /\ fn \in {"fmod","remainder"} /\ (IsInf(a,f) \/ IsZeroF(b))
\* scaling: infinities without options, range errors unless they are handled
ScaleFree(h,f,a,k) ==
  \/ OptFree(h,"scale",f,a,a) \/ (h.opt = 0 /\ IsInf(a,f))
  \/ /\ h.opt < 2 /\ IsFinite(a,f) /\ ~IsZeroF(a)
     /\ LET w == FScale(a,ClampInt(k,5000),f) IN IsInf(w,f) \/ IsZeroF(w)

\* remainder r (<<>>: judged elsewhere) and quotient bits qw
RemquoOk(f,a,b,r,qw) ==
  IF ~(IsFinite(a,f) /\ IsFinite(b,f)) \/ IsZeroF(b) \/ IsZeroF(a)
  THEN r = <<>> \/ SameF(r,RemW(a,b,f),f)
  ELSE LET p == RemParts(a,b,f)
           neg == Sign(a) # Sign(b)
           q == IF IsNeg(qw) THEN Neg(qw) ELSE qw
       IN /\ (r = <<>> \/ r = p[1]) /\ q[1] % 8 = p[2]
          /\ IF neg THEN IsNeg(qw) \/ IsZero(qw) ELSE ~IsNeg(qw)

\* -------------------------------------------- promotion of mixed operand types
\* An argument that is not of the function's floating type takes part as the
\* double it converts to; the result is that of the function on doubles.
Pr(t,f,a) == IF t.k # "f" THEN IntToF(a,t.k = "i",f)
             ELSE IF t.s = 8 THEN a
             ELSE IF IsNaN(a,Fmt(t.s)) THEN SetSign(QNaN(f),Sign(a)) ELSE FConv(a,Fmt(t.s),f)
\* operands that doubles hold exactly
Exact(t,f,a) == t.k # "f" => FToInt(Pr(t,f,a),f,9,"z") = Resize(t.k = "i",a,9)
\* both operands of the same integral type: the result has that type; it is the
\* function's value wherever that is an integer doubles hold
SameIntFn(fn,t,f,a,b,c,r) ==
  LET sg == t.k = "i" IN
  CASE fn = "fmadd" -> r = Add(Mul(a,b),c)
    [] fn = "fmsub" -> r = Sub(Mul(a,b),c)
    [] fn = "fnmadd" -> r = Sub(c,Mul(a,b))
    [] fn = "fnmsub" -> r = Sub(Neg(Mul(a,b)),c)
    [] fn \in {"fmax","fmin"} -> (Exact(t,f,a) /\ Exact(t,f,b)) => r = IntBin(IF fn = "fmax" THEN "max" ELSE "min",sg,a,b)
    [] fn = "fdim" -> (Exact(t,f,a) /\ Exact(t,f,b) /\ (t.s = 8 => (a[7] < 16 /\ a[8] = 0 /\ b[7] < 16 /\ b[8] = 0))
                       /\ (sg => ~IsNeg(a) /\ ~IsNeg(b)))
                      => r = IF Lt(sg,b,a) THEN Sub(a,b) ELSE [i \in 1..t.s |-> 0]
    [] fn = "remainder" -> (Exact(t,f,a) /\ Exact(t,f,b) /\ ~IsZero(b))
                      => LET w == RemW(Pr(t,f,a),Pr(t,f,b),f) IN FToIntDefined(w,f,t.s,sg,"z") => r = FToInt(w,f,t.s,"z")
PromOk(h,fn,t,u,a,b,c,r) ==
  LET f == InMode(Fmt(8),h.rm)
      x == Pr(t,f,a)
      y == Pr(u,f,b)
      asdouble ==
        Len(r) = 8 /\ IF fn = "copysign" /\ IsNaN(x,f) THEN IsNaN(r,f) /\ Sign(r) = Sign(y)
                      ELSE IF fn = "lerp" THEN LerpOk(f,x,y,Pr(t,f,c),r)
                      ELSE IF fn \in {"fma","fmadd","fmsub","fnmadd","fnmsub"} THEN FTerOk(fn,f,h.fused = 1,x,y,Pr(t,f,c),r)
                      ELSE FBinFnOk(fn,f,x,y,r)
  IN IF t = u /\ t.k = "f"           \* nothing to promote
     THEN LET g == InMode(Fmt(t.s),h.rm) IN
          Len(r) = t.s /\ IF fn \in {"fma","fmadd","fmsub","fnmadd","fnmsub"} THEN FTerOk(fn,g,h.fused = 1,a,b,c,r) ELSE FBinFnOk(fn,g,a,b,r)
     ELSE IF t = u /\ fn \in {"fmax","fmin","fdim","remainder","fmadd","fmsub","fnmadd","fnmsub"}
     THEN (Len(r) = t.s /\ SameIntFn(fn,t,f,a,b,c,r)) \/ asdouble
     ELSE asdouble

\* ------------------------------------------------------------------- memory
\* bytes of memory R at 0-based offset p, n of them, as a word
Peek(R,p,n) == [i \in 1..n |-> R[p+i]]
\* all n lanes of s bytes at p
Lanes(R,p,s,n) == [i \in 1..n |-> Peek(R,p+(i-1)*s,s)]

CellTrue(k,w) == IF k = "f" THEN ~IsZeroF(w) ELSE ~IsZero(w)
CellOf(k,s,b) == IF b = 0 THEN [i \in 1..s |-> 0] ELSE IF k = "f" THEN IntToF(<<1>>,FALSE,Fmt(s)) ELSE One(s)

\* ---------------------------------------------------------------- the machine
All(h,P(_)) == \A i \in 1..h.n : P(i)
RegLanes(h,x) == SubSeq(x,1,h.n)
Bc(h,x) == [i \in 1..h.n |-> x[1]]

\* outcome record: ok, and the next registers and memory
Out(ok,V,M,R) == [ok |-> ok, V |-> V, M |-> M, R |-> R]

Apply(h,e,V,M,R) ==
  LET n == h.n
      f == F(h)
      VecTo(d,P(_)) == Out(Len(e.r) = n /\ \A i \in 1..n : P(i), [V EXCEPT ![d+1] = e.r], M, R)
      MaskTo(d,P(_)) == LET w == [i \in 1..n |-> P(i)] IN Out(e.r = w, V, [M EXCEPT ![d+1] = IF Len(e.r) = n THEN e.r ELSE w], R)
      Only(ok) == Out(ok,V,M,R)
      A == V[e.a+1]
      B == IF e.w \in {"v","vq"} THEN V[e.b+1] ELSE Bc(h,e.x)
      C == V[e.c+1]
      L == IF e.w \in {"vq","sq"} THEN V[e.d+1] ELSE A        \* left operand
      rm == IF e.w \in {"ne","u","d","z"} THEN e.w ELSE h.rm   \* mode set around this call, or the one in force
      tb == [k |-> e.f, s |-> e.b]
  IN CASE e.o = "env" -> Only(TRUE)
       [] e.o = "bin" -> VecTo(e.d,LAMBDA i : BinOk(h,e.f,L[i],B[i],e.r[i]))
       [] e.o \in {"lit","mov"} -> LET w == IF e.o = "lit" THEN RegLanes(h,e.x) ELSE A IN VecTo(e.d,LAMBDA i : e.r[i] = w[i])
       [] e.o = "bc" -> VecTo(e.d,LAMBDA i : e.r[i] = e.x[1])
       [] e.o = "gen" -> VecTo(e.d,LAMBDA i : e.r[i] = e.x[i])
       [] e.o = "dumpv" -> Only(e.r = A)
       [] e.o = "dumpm" -> Only(e.r = M[e.a+1])
       [] e.o = "un" -> VecTo(e.d,LAMBDA i : CASE e.f = "neg" -> NegOk(h,A[i],e.r[i]) [] e.f = "pos" -> e.r[i] = A[i]
                                               [] e.f = "not" -> e.r[i] = NotW(A[i]) [] e.f = "abs" -> AbsOk(h,A[i],e.r[i]))
       [] e.o = "inc" -> LET old == V[e.d+1]
                             o == IF e.f = "inc" THEN "add" ELSE "sub"
                         IN Out(/\ Len(e.r) = n /\ Len(e.q) = n
                                /\ \A i \in 1..n : BinOk(h,o,old[i],OneL(h),e.r[i])
                                /\ e.q = (IF e.w = "post" THEN old ELSE e.r), [V EXCEPT ![e.d+1] = e.r], M, R)
       [] e.o = "shk" -> VecTo(e.d,LAMBDA i : e.r[i] = ShiftK(e.f,Signed(h),L[i],e.k))
       [] e.o = "cmp" -> MaskTo(e.d,LAMBDA i : B01(CmpL(h,e.f,A[i],B[i])))
       [] e.o = "lnot" -> MaskTo(e.d,LAMBDA i : B01(IsZeroL(h,A[i])))
       [] e.o = "clamp" -> VecTo(e.d,LAMBDA i : ClampOk(h,A[i],B[i],IF e.w = "v" THEN C[i] ELSE e.y[1],e.r[i]))
       [] e.o = "minmax" -> Out(/\ Len(e.r) = n /\ Len(e.q) = n
                                /\ \A i \in 1..n : BinOk(h,"min",A[i],B[i],e.r[i]) /\ BinOk(h,"max",A[i],B[i],e.q[i]),
                                [V EXCEPT ![e.d+1] = e.r, ![e.c+1] = e.q], M, R)
       [] e.o = "blend" -> VecTo(e.d,LAMBDA i : e.r[i] = IF M[e.c+1][i] = 1 THEN A[i] ELSE V[e.b+1][i])
       [] e.o = "mblend" -> MaskTo(e.d,LAMBDA i : IF M[e.c+1][i] = 1 THEN M[e.a+1][i] ELSE M[e.b+1][i])
       \* element access
       [] e.o = "get" -> Only(e.r = <<A[1 + (e.k % n)]>>)
       [] e.o = "set" -> VecTo(e.d,LAMBDA i : LET old == V[e.d+1][i] IN
                                   IF i # 1 + (e.k % n) THEN e.r[i] = old
                                   ELSE IF e.f = "asg" THEN e.r[i] = e.x[1] ELSE BinOk(h,e.f,old,e.x[1],e.r[i]))
       [] e.o = "mget" -> Only(e.r = M[e.a+1][1 + (e.k % n)])
       [] e.o = "mset" -> MaskTo(e.d,LAMBDA i : LET old == M[e.d+1][i] IN
                                   IF i # 1 + (e.k % n) THEN old
                                   ELSE CASE e.f = "asg" -> e.x[1] [] e.f = "and" -> old*e.x[1] [] e.f = "or" -> Max(old,e.x[1])
                                          [] e.f = "xor" -> (old+e.x[1])%2)
       \* lane to lane: lane k of register d and lane k \div 64 of register a (possibly one and the same)
       [] e.o = "eset" -> LET i == 1 + (e.k % n)  j == 1 + ((e.k \div 64) % n)
                              W == IF e.f = "cp" THEN [V EXCEPT ![e.d+1][i] = A[j]]
                                   ELSE LET old == V[e.d+1][i] W1 == [V EXCEPT ![e.d+1][i] = A[j]] IN [W1 EXCEPT ![e.a+1][j] = old]
                          IN Out(e.r = W[e.d+1],W,M,R)
       [] e.o = "meset" -> LET i == 1 + (e.k % n)  j == 1 + ((e.k \div 64) % n)
                               old == M[e.d+1][i]  src == M[e.a+1][j]
                               new == CASE e.f \in {"cp","sw"} -> src [] e.f = "bsw" -> e.x[1]
                                        [] e.f = "and" -> old*src [] e.f = "or" -> Max(old,src) [] e.f = "xor" -> (old+src)%2
                               W1 == [M EXCEPT ![e.d+1][i] = new]
                               W == IF e.f \in {"sw","bsw"} THEN [W1 EXCEPT ![e.a+1][j] = old] ELSE W1
                           IN Out(e.r = W[e.d+1],V,W,R)
       [] e.o = "meget" -> LET p == M[e.a+1][1 + (e.k % n)]  q == M[e.b+1][1 + ((e.k \div 64) % n)] IN
                           Only(e.r = CASE e.f = "and" -> p*q [] e.f = "or" -> Max(p,q) [] e.f = "xor" -> (p+q)%2)
       \* masks
       [] e.o \in {"mlit","mgen"} -> MaskTo(e.d,LAMBDA i : e.x[i])
       [] e.o = "mmov" -> MaskTo(e.d,LAMBDA i : M[e.a+1][i])
       [] e.o = "mbc" -> MaskTo(e.d,LAMBDA i : e.x[1])
       [] e.o = "mbin" -> MaskTo(e.d,LAMBDA i : MBool(e.f,IF e.w = "vq" THEN M[e.d+1][i] ELSE M[e.a+1][i],M[e.b+1][i]))
       [] e.o = "mun" -> MaskTo(e.d,LAMBDA i : IF e.f = "pos" THEN M[e.a+1][i] ELSE 1 - M[e.a+1][i])
       [] e.o = "mred" -> Only(e.r = MReduce(e.f,M[e.a+1]))
       \* overloads for a single value: a mask of one lane
       [] e.o = "bred" -> Only(e.r = MReduce(e.f,<<M[e.a+1][1 + (e.k % n)]>>))
       [] e.o = "bblend" -> VecTo(e.d,LAMBDA i : e.r[i] = IF M[e.c+1][1 + (e.k % n)] = 1 THEN A[i] ELSE V[e.b+1][i])
       [] e.o = "sblend" -> Only(e.r = <<IF M[e.c+1][1 + (e.k % n)] = 1 THEN A[1 + (e.k % n)] ELSE V[e.b+1][1 + (e.k % n)]>>)
       [] e.o = "sshuf" -> Only(e.r = [i \in 1..4 |-> A[1 + (e.k % n)]])
       \* masked literal load into a mask (bools), masked store handled by "mst"
       [] e.o = "mldm" -> MaskTo(e.d,LAMBDA i : IF M[e.c+1][i] = 1 THEN e.x[i] ELSE M[e.d+1][i])
       \* reductions and permutations
       [] e.o = "red" -> Only(ReduceOk(h,e.f,A,e.r[1]))
       [] e.o = "shuf" -> Only(e.r = [i \in 1..Len(e.x) |-> A[1 + e.x[i]]])
       [] e.o = "shufd" -> VecTo(e.d,LAMBDA i : e.r[i] = A[1 + e.x[i]])
       [] e.o = "mshuf" -> Only(e.r = [i \in 1..Len(e.x) |-> M[e.a+1][1 + e.x[i]]])
       \* conversions: to type tb (kind e.f, size e.b); q: converted back to the register's own ABI
       [] e.o = "cvt" -> Only(Len(e.r) = n /\ \A i \in 1..n : CvtOk(h.rm,Ty(h),tb,A[i],e.r[i]))
       [] e.o = "same" -> Only(e.r = A)
       [] e.o = "msame" -> Only(e.r = M[e.a+1])
       \* loads and stores: element type tb at byte offset e.k; e.c >= 0: masked by M[e.c]
       [] e.o = "setmem" -> Out(e.r = e.x,V,M,e.x)
       [] e.o = "ld" -> LET old == IF e.w = "keep" THEN V[e.d+1] ELSE <<>>
                            sel(i) == IF e.c < 0 THEN TRUE ELSE M[e.c+1][i] = 1
                        IN VecTo(e.d,LAMBDA i : IF sel(i) THEN CvtOk(h.rm,tb,Ty(h),Peek(R,e.k+(i-1)*e.b,e.b),e.r[i])
                                                ELSE IF e.w = "keep" THEN e.r[i] = old[i] ELSE TRUE)
       \* store: e.r is the whole memory afterwards
       [] e.o = "st" -> LET sel(i) == IF e.c < 0 THEN TRUE ELSE M[e.c+1][i] = 1
                            lane(j) == (j - 1 - e.k) \div e.b + 1
                            inlane(j) == j > e.k /\ lane(j) <= n
                        IN Out(/\ Len(e.r) = Len(R)
                               /\ \A j \in 1..Len(R) : (inlane(j) /\ sel(lane(j))) \/ e.r[j] = R[j]
                               /\ \A i \in 1..n : (sel(i) /\ e.k + i*e.b <= Len(R)) => CvtOk(h.rm,Ty(h),tb,A[i],Peek(e.r,e.k+(i-1)*e.b,e.b)),
                               V,M,e.r)
       \* memory of masks: a cell of kind e.f ("-": bool) holds true iff it is not zero
       [] e.o = "mld" -> LET sel(i) == IF e.c < 0 THEN TRUE ELSE M[e.c+1][i] = 1
                             cell(i) == B01(CellTrue(e.f,Peek(R,e.k+(i-1)*e.b,e.b)))
                         IN IF e.w = "keep" \/ e.c < 0
                            THEN MaskTo(e.d,LAMBDA i : IF sel(i) THEN cell(i) ELSE M[e.d+1][i])
                            ELSE Out(Len(e.r) = n /\ \A i \in 1..n : sel(i) => e.r[i] = cell(i),
                                     V,[M EXCEPT ![e.d+1] = e.r],R)
       [] e.o = "mst" -> LET sel(i) == IF e.c < 0 THEN TRUE ELSE M[e.c+1][i] = 1
                             lane(j) == (j - 1 - e.k) \div e.b + 1
                             cells == <<CellOf(e.f,e.b,0),CellOf(e.f,e.b,1)>>
                             w == [j \in 1..Len(R) |-> IF j > e.k /\ lane(j) <= n /\ sel(lane(j))
                                                       THEN cells[M[e.a+1][lane(j)] + 1][((j - 1 - e.k) % e.b) + 1] ELSE R[j]]
                         IN Out(e.r = w,V,M,w)
       \* floating-point functions
       [] e.o = "fu" -> VecTo(e.d,LAMBDA i : OptFree(h,e.f,f,A[i],A[i]) \/ FUnOk(e.f,f,rm,A[i],e.r[i]))
       [] e.o = "fb" -> VecTo(e.d,LAMBDA i : OptFree(h,e.f,f,A[i],B[i]) \/ FBinFnOk(e.f,f,A[i],B[i],e.r[i]))
       \* nexttoward a number of the wider format just above (u) or just below (d) the second operand
       [] e.o = "ntl" -> VecTo(e.d,LAMBDA i : LET t == FNextWide(A[i],V[e.b+1][i],e.w = "u",f) IN OptFree(h,"nexttoward",f,A[i],t) \/ SameF(e.r[i],t,f))
       [] e.o = "ft" -> VecTo(e.d,LAMBDA i : FTerOk(e.f,f,h.fused = 1,A[i],B[i],C[i],e.r[i]))
       [] e.o = "lerp" -> VecTo(e.d,LAMBDA i : LerpOk(f,A[i],V[e.b+1][i],IF e.w = "v" THEN C[i] ELSE e.x[1],e.r[i]))
       [] e.o = "fcls" -> MaskTo(e.d,LAMBDA i : B01(ClsL(e.f,f,A[i])))
       [] e.o = "fqc" -> MaskTo(e.d,LAMBDA i : B01(QCmpL(e.f,f,A[i],B[i])))
       \* the quiet NaN that carries the number spelled by the string
       [] e.o = "fnan" -> VecTo(e.d,LAMBDA i : e.r[i] = OrW(QNaN(f),NatBytes(e.k,f.n)))
       [] e.o = "fpclass" -> Only(e.r = [i \in 1..n |-> FpClass(f,A[i])])
       [] e.o = "irnd" -> Only(Len(e.r) = n /\ \A i \in 1..n : IRndOk(e.f,f,rm,A[i],e.r[i]))
       [] e.o = "frexp" -> Out(/\ Len(e.r) = n /\ Len(e.q) = n
                               /\ \A i \in 1..n : OptFree(h,e.o,f,A[i],A[i]) \/ FrexpOk(f,A[i],e.r[i],e.q[i]),[V EXCEPT ![e.d+1] = e.r],M,R)
       [] e.o = "modf" -> Out(/\ Len(e.r) = n /\ Len(e.q) = n
                              /\ \A i \in 1..n : OptFree(h,e.o,f,A[i],A[i]) \/ ModfOk(f,A[i],e.r[i],e.q[i]),[V EXCEPT ![e.d+1] = e.r,![e.c+1] = e.q],M,R)
       [] e.o = "ilogb" -> Only(Len(e.r) = n /\ \A i \in 1..n : OptFree(h,e.o,f,A[i],A[i]) \/ IlogbOk(f,A[i],e.r[i]))
       [] e.o = "scale" -> VecTo(e.d,LAMBDA i : LET k == IF e.w = "v" THEN e.x[i] ELSE e.x[1] IN ScaleFree(h,f,A[i],k) \/ ScaleOk(f,A[i],k,e.r[i]))
       [] e.o = "remquo" -> Out(/\ Len(e.r) = n /\ Len(e.q) = n
                                /\ \A i \in 1..n : OptFree(h,"remainder",f,A[i],V[e.b+1][i]) \/ RemquoOk(f,A[i],V[e.b+1][i],e.r[i],e.q[i]),
                                [V EXCEPT ![e.d+1] = e.r],M,R)
       \* mixed operand types: the second operand is in e.x, of kind e.w and size e.b
       [] e.o \in {"pv","ps"} ->
            LET u == [k |-> e.w, s |-> e.b]
                Y == IF e.o = "pv" THEN e.x ELSE Bc(h,e.x)
                f8 == InMode(Fmt(8),h.rm)
            IN CASE e.f \in {"isgreater","isgreaterequal","isless","islessequal","islessgreater","isunordered"} ->
                      Only(Len(e.r) = n /\ \A i \in 1..n : e.r[i] = B01(QCmpL(e.f,f8,Pr(Ty(h),f8,A[i]),Pr(u,f8,Y[i]))))
                 [] e.f \in {"hypot","pow","atan2"} -> Only(Len(e.r) = n /\ Len(e.q) = n /\ \A i \in 1..n : LET g == IF u = Ty(h) /\ h.k = "f" THEN F(h) ELSE f8 IN
                                                              IF u = Ty(h) /\ h.k = "f" /\ h.s = 4 THEN Len(e.r[i]) = 4 ELSE SameF(e.r[i],e.q[i],g))
                 [] e.f \in {"remquo","remquor"} ->
                      Only(Len(e.r) = n /\ Len(e.q) = n
                           /\ \A i \in 1..n : RemquoOk(IF u = Ty(h) /\ h.k = "f" THEN F(h) ELSE f8,
                                                         IF u = Ty(h) /\ h.k = "f" THEN A[i] ELSE Pr(Ty(h),f8,A[i]),
                                                         IF u = Ty(h) /\ h.k = "f" THEN Y[i] ELSE Pr(u,f8,Y[i]),
                                                         IF u = Ty(h) /\ h.k # "f" THEN <<>> ELSE e.r[i],e.q[i]))
                 [] e.o = "ps" /\ e.f = "lerp" ->
                      Only(Len(e.r) = n /\ \A i \in 1..n : Len(e.r[i]) = 8 /\ LerpOk(f8,Pr(Ty(h),f8,A[i]),Pr(Ty(h),f8,C[i]),Pr(u,f8,Y[i]),e.r[i]))
                 [] OTHER -> Only(Len(e.r) = n /\ \A i \in 1..n : PromOk(h,e.f,Ty(h),u,A[i],Y[i],C[i],e.r[i]))
       \* integral arguments of functions of one argument: that of the double converted by hand
       [] e.o = "pu" -> LET f8 == InMode(Fmt(8),h.rm) IN
                        Only(Len(e.r) = n /\ Len(e.q) = n /\ \A i \in 1..n :
                             /\ SameF(e.r[i],e.q[i],f8)
                             /\ e.f \in {"sqrt","logb"} => FUnOk(e.f,f8,h.rm,Pr(Ty(h),f8,A[i]),e.r[i]))
       [] e.o = "pum" -> LET f8 == InMode(Fmt(8),h.rm) IN Only(Len(e.r) = n /\ \A i \in 1..n : e.r[i] = B01(ClsL(e.f,f8,Pr(Ty(h),f8,A[i]))))
       [] e.o = "pfpc" -> LET f8 == InMode(Fmt(8),h.rm) IN Only(e.r = [i \in 1..n |-> FpClass(f8,Pr(Ty(h),f8,A[i]))])
       [] e.o = "pilogb" -> LET f8 == InMode(Fmt(8),h.rm) IN Only(Len(e.r) = n /\ \A i \in 1..n : IlogbOk(f8,Pr(Ty(h),f8,A[i]),e.r[i]))
       [] e.o = "pfrexp" -> LET f8 == InMode(Fmt(8),h.rm) IN
                            Only(Len(e.r) = n /\ Len(e.q) = n /\ \A i \in 1..n : FrexpOk(f8,Pr(Ty(h),f8,A[i]),e.r[i],e.q[i]))
       [] e.o = "pscale" -> LET f8 == InMode(Fmt(8),h.rm) IN
                            Only(Len(e.r) = n /\ \A i \in 1..n : ScaleOk(f8,Pr(Ty(h),f8,A[i]),IF e.w = "v" THEN e.x[i] ELSE e.x[1],e.r[i]))
       [] OTHER -> Only(FALSE)         \* e.g. a crash: no step of the machine

\* ------------------------------------------- exception flags of one step
\* positions: 1 invalid, 2 division by zero, 3 overflow, 4 underflow, 5 inexact.  Quiet comparisons
\* raise nothing for operands that do not signal, and nearbyint nothing for any value; rounding
\* "with exceptions" tells that a lane was not integral.
Calm(w,f) == ~IsSNaN(w,f)
FlagsNot(h,e,V) ==
  IF h.k # "f" \/ e.o \notin {"fqc","fu"} THEN {}
  ELSE LET f == F(h)
           A == V[e.a+1]
           B == IF e.w = "v" THEN V[e.b+1] ELSE Bc(h,e.x)
       IN
       CASE e.o = "fqc" -> IF \A i \in 1..h.n : Calm(A[i],f) /\ Calm(B[i],f) THEN 1..5 ELSE {}
         [] e.f = "nearbyint" -> IF \A i \in 1..h.n : Calm(A[i],f) THEN 1..5 ELSE 2..5
         [] OTHER -> {}
FlagsMust(h,e,V) ==
  IF h.k # "f" \/ ~((e.o = "fu" /\ e.f = "rint") \/ (e.o = "irnd" /\ e.f \in {"lrint","llrint","irint_i","irint_l"})) THEN {}
  ELSE LET f == F(h) A == V[e.a+1] IN
       IF \E i \in 1..h.n : /\ IsFinite(A[i],f) /\ FRint(A[i],f,"z") # A[i]
                            /\ e.o = "irnd" => FToIntDefined(A[i],f,Len(e.r[i]),TRUE,"na")
       THEN {5} ELSE {}
=============================================================================
