------------------------------ MODULE Floats -------------------------------
(* IEEE-754 binary formats over byte-tuple words.                             *)
(* A finite value is a dyadic [s, m, e] = (-1)^s * m * 2^e with m a natural   *)
(* (byte tuple).  Every operation computes the exact dyadic result (or an     *)
(* exact comparison against it) and rounds once.                              *)
EXTENDS Words

\* p: precision, emin/emax: exponent range of normal numbers, n: bytes
Binary32 == [p |-> 24, emin |-> -126,  emax |-> 127,  n |-> 4, rm |-> "ne"]
Binary64 == [p |-> 53, emin |-> -1022, emax |-> 1023, n |-> 8, rm |-> "ne"]
\* small formats used to check this module exhaustively
Mini8    == [p |-> 4, emin |-> -6, emax |-> 7, n |-> 1, rm |-> "ne"]
Mini8b   == [p |-> 5, emin |-> -2, emax |-> 3, n |-> 1, rm |-> "ne"]
Half     == [p |-> 11, emin |-> -14, emax |-> 15, n |-> 2, rm |-> "ne"]
Fmt(n) == IF n = 4 THEN Binary32 ELSE Binary64
\* a format together with the rounding direction in force (field rm)
InMode(f,rm) == [f EXCEPT !.rm = rm]

Qmin(f) == f.emin - f.p + 1                 \* exponent of the least subnormal
MaxBiased(f) == f.emax - f.emin + 2         \* biased exponent of inf/nan

Sign(w) == w[Len(w)] \div 128
Mag(w)  == [w EXCEPT ![Len(w)] = w[Len(w)] % 128]         \* clear the sign bit
SetSign(w,s) == [w EXCEPT ![Len(w)] = (w[Len(w)] % 128) + 128*s]
FlipSign(w) == SetSign(w,1 - Sign(w))
BiasedExp(w,f) == Nat_(BShr(Mag(w),f.p-1))
\* low p-1 bits
Frac(w,f) == LET k == f.p - 1
                 q == k \div 8
             IN [i \in 1..(q+1) |-> IF i <= q THEN w[i] ELSE w[i] % (2^(k % 8))]
InfW(s,f)  == SetSign(ShlN(NatBytes(MaxBiased(f),2),f.p-1,f.n),s)
ZeroW(s,f) == SetSign(Zeros(f.n),s)
MaxFinW(s,f) == SetSign(Dec(InfW(0,f)),s)
QNaN(f)    == LET q == ShlN(<<1>>,f.p-2,f.n) IN OrW(InfW(0,f),q)

IsNaN(w,f) == BCmp(Mag(w),InfW(0,f)) > 0
IsSNaN(w,f) == IsNaN(w,f) /\ BitAt(w,f.p-2) = 0        \* signalling
IsInf(w,f) == Mag(w) = InfW(0,f)
IsZeroF(w) == IsZero(Mag(w))
IsFinite(w,f) == BCmp(Mag(w),InfW(0,f)) < 0
IsSub(w,f) == ~IsZeroF(w) /\ BiasedExp(w,f) = 0
IsNormal(w,f) == BiasedExp(w,f) \in 1..(MaxBiased(f)-1)

\* unpack a finite word
Unpack(w,f) == LET b == BiasedExp(w,f)
                   fr == Frac(w,f)
                   k == f.p - 1
               IN [s |-> Sign(w), e |-> Qmin(f) + (IF b = 0 THEN 0 ELSE b - 1),
                   m |-> IF b = 0 THEN fr ELSE [fr EXCEPT ![1 + (k \div 8)] = fr[1 + (k \div 8)] + 2^(k % 8)]]

\* rounding modes: "ne" nearest even, "na" nearest away, "z" zero, "u" up, "d" down
\* Round the exact value (-1)^s * (m + sticky) * 2^e, 0 <= sticky < 1 (st: sticky non-zero).
\* When st holds m must have at least p+2 significant bits (or be below the least subnormal).
RoundUp(mode,s,odd,half,rest) ==
  CASE mode = "ne" -> half /\ (rest \/ odd)
    [] mode = "na" -> half
    [] mode = "z"  -> FALSE
    [] mode = "u"  -> s = 0 /\ (half \/ rest)
    [] mode = "d"  -> s = 1 /\ (half \/ rest)
OverflowW(s,f,mode) == IF mode \in {"ne","na"} \/ (mode = "u" /\ s = 0) \/ (mode = "d" /\ s = 1)
                       THEN InfW(s,f) ELSE MaxFinW(s,f)
Round(s,m,e,st,f,mode) ==
  LET L == BitLen(m) IN
  IF L = 0 /\ ~st THEN ZeroW(s,f)
  ELSE LET q == Max(e + L - f.p, Qmin(f))
       IN IF e + L - 1 > f.emax THEN OverflowW(s,f,mode)
          ELSE LET d == q - e
                   kept == IF d <= 0 THEN BShl(m,-d) ELSE BShr(m,d)
                   half == d > 0 /\ BitAt(m,d-1) = 1
                   rest == st \/ (d > 0 /\ BLow(m,d-1))
                   r0 == ZExt(kept,f.n)
                   r1 == IF RoundUp(mode,s,BitAt(kept,0) = 1,half,rest) THEN Inc(r0) ELSE r0
                   w  == Add(r1,ShlN(NatBytes(q - Qmin(f),2),f.p-1,f.n))
               IN IF BCmp(w,InfW(0,f)) >= 0 THEN OverflowW(s,f,mode) ELSE SetSign(w,s)

\* --------------------------------------------------------------- dyadics
\* align: bring m to exponent e0 <= e
AlignTo(x,e0) == IF x.e > e0 THEN BShl(x.m,x.e - e0) ELSE x.m
\* compare magnitudes of dyadics exactly
Top(x) == x.e + BitLen(x.m)
CmpMag(x,y) == LET zx == BitLen(x.m) = 0
                   zy == BitLen(y.m) = 0
               IN IF zx /\ zy THEN 0 ELSE IF zx THEN -1 ELSE IF zy THEN 1
                  ELSE IF Top(x) # Top(y) THEN (IF Top(x) < Top(y) THEN -1 ELSE 1)
                  ELSE LET e0 == Min(x.e,y.e) IN BCmp(AlignTo(x,e0),AlignTo(y,e0))
IsZ(x) == BitLen(x.m) = 0
\* exact sum of non-zero dyadics; zero result has m = <<0>>
AddD(x,y) == LET e0 == Min(x.e,y.e)
                 a == AlignTo(x,e0)
                 b == AlignTo(y,e0)
             IN IF x.s = y.s THEN [s |-> x.s, m |-> BAdd(a,b), e |-> e0]
                ELSE LET c == BCmp(a,b) IN
                     IF c = 0 THEN [s |-> 0, m |-> <<0>>, e |-> e0]
                     ELSE IF c > 0 THEN [s |-> x.s, m |-> BSub(a,b), e |-> e0]
                     ELSE [s |-> y.s, m |-> BSub(b,a), e |-> e0]
\* For rounding purposes a summand far below the other may be replaced by a tiny one of
\* the same sign: nothing but its sign can influence the rounded result.
Far(x,y,f) == LET u == Min(x.e, Top(x) - f.p - 2) - 2
              IN IF Top(y) <= u THEN [s |-> y.s, m |-> <<1>>, e |-> u] ELSE y
\* rounded sum of dyadics; sz: sign of an exact zero result
SumR(x,y,f,mode) ==
  IF IsZ(x) /\ IsZ(y) THEN ZeroW(IF x.s = y.s THEN x.s ELSE IF mode = "d" THEN 1 ELSE 0,f)
  ELSE IF IsZ(x) THEN Round(y.s,y.m,y.e,FALSE,f,mode)
  ELSE IF IsZ(y) THEN Round(x.s,x.m,x.e,FALSE,f,mode)
  ELSE LET d == AddD(Far(y,x,f),Far(x,y,f))
       IN IF BitLen(d.m) = 0 THEN ZeroW(IF mode = "d" THEN 1 ELSE 0,f)
          ELSE Round(d.s,d.m,d.e,FALSE,f,mode)
MulD(x,y) == [s |-> (x.s + y.s) % 2, m |-> BMul(x.m,y.m), e |-> x.e + y.e]

\* ------------------------------------------------------------- arithmetic
FAddM(a,b,f,mode) ==
  IF IsNaN(a,f) \/ IsNaN(b,f) THEN QNaN(f)
  ELSE IF IsInf(a,f) THEN (IF IsInf(b,f) /\ a # b THEN QNaN(f) ELSE a)
  ELSE IF IsInf(b,f) THEN b
  ELSE SumR(Unpack(a,f),Unpack(b,f),f,mode)
FAdd(a,b,f) == FAddM(a,b,f,f.rm)
FNeg(a) == FlipSign(a)
FSub(a,b,f) == IF IsNaN(b,f) THEN QNaN(f) ELSE FAdd(a,FNeg(b),f)
FMul(a,b,f) ==
  LET s == (Sign(a) + Sign(b)) % 2 IN
  IF IsNaN(a,f) \/ IsNaN(b,f) THEN QNaN(f)
  ELSE IF IsInf(a,f) \/ IsInf(b,f) THEN (IF IsZeroF(a) \/ IsZeroF(b) THEN QNaN(f) ELSE InfW(s,f))
  ELSE LET d == MulD(Unpack(a,f),Unpack(b,f)) IN Round(s,d.m,d.e,FALSE,f,f.rm)
\* a*b + c with one rounding
FFma(a,b,c,f) ==
  LET s == (Sign(a) + Sign(b)) % 2 IN
  IF IsNaN(a,f) \/ IsNaN(b,f) \/ IsNaN(c,f) THEN QNaN(f)
  ELSE IF IsInf(a,f) \/ IsInf(b,f)
       THEN (IF IsZeroF(a) \/ IsZeroF(b) \/ (IsInf(c,f) /\ Sign(c) # s) THEN QNaN(f) ELSE InfW(s,f))
  ELSE IF IsInf(c,f) THEN c
  ELSE SumR(MulD(Unpack(a,f),Unpack(b,f)),Unpack(c,f),f,f.rm)

\* ---- correct rounding as a relation: r is the nearest (ties even) value to a positive real
\* given only by Cmp(d), the sign of (d - real) for dyadics d >= 0.
HalfStep(r,f) == \* midpoint between |r| and its successor
  LET u == Unpack(Mag(r),f) IN [s |-> 0, m |-> BAdd(BShl(u.m,1),<<1>>), e |-> u.e - 1]
HalfBelow(r,f) == HalfStep(Dec(Mag(r)),f)
IsNearest(r,f,Cmp(_)) ==
  LET odd == r[1] % 2 = 1 IN
  IF IsNaN(r,f) THEN FALSE
  ELSE /\ IF IsInf(r,f) THEN TRUE
          ELSE LET c == Cmp(HalfStep(r,f)) IN c > 0 \/ (c = 0 /\ ~odd)
       /\ IF IsZeroF(r) THEN TRUE
          ELSE LET c == Cmp(HalfBelow(r,f)) IN c < 0 \/ (c = 0 /\ ~odd)
\* the same for the direction f.rm; s: sign of the real
IsRounded(r,f,s,Cmp(_)) ==
  IF f.rm = "ne" THEN IsNearest(r,f,Cmp)
  ELSE LET away == (f.rm = "u" /\ s = 0) \/ (f.rm = "d" /\ s = 1)
           at(w) == [Unpack(Mag(w),f) EXCEPT !.s = 0]
       IN IF away THEN (IF IsInf(r,f) THEN Cmp(at(MaxFinW(0,f))) < 0
                        ELSE Cmp(at(r)) >= 0 /\ (IsZeroF(r) \/ Cmp(at(Dec(Mag(r)))) < 0))
          ELSE /\ IsFinite(r,f) /\ Cmp(at(r)) <= 0
               /\ Mag(r) = MaxFinW(0,f) \/ Cmp(at(Inc(Mag(r)))) > 0
\* r = a / b ?
FDivOk(a,b,r,f) ==
  LET s == (Sign(a) + Sign(b)) % 2 IN
  IF IsNaN(a,f) \/ IsNaN(b,f) \/ (IsInf(a,f) /\ IsInf(b,f)) \/ (IsZeroF(a) /\ IsZeroF(b)) THEN IsNaN(r,f)
  ELSE IF IsInf(a,f) \/ IsZeroF(b) THEN r = InfW(s,f)
  ELSE IF IsInf(b,f) \/ IsZeroF(a) THEN r = ZeroW(s,f)
  ELSE LET x == [Unpack(a,f) EXCEPT !.s = 0]
           y == [Unpack(b,f) EXCEPT !.s = 0]
       IN ~IsNaN(r,f) /\ Sign(r) = s /\ IsRounded(r,f,s,LAMBDA d : CmpMag(MulD(d,y),x))
FSqrtOk(a,r,f) ==
  IF IsNaN(a,f) \/ (Sign(a) = 1 /\ ~IsZeroF(a)) THEN IsNaN(r,f)
  ELSE IF IsZeroF(a) \/ IsInf(a,f) THEN r = a
  ELSE LET x == Unpack(a,f)
       IN ~IsNaN(r,f) /\ Sign(r) = 0 /\ IsRounded(r,f,0,LAMBDA d : CmpMag(MulD(d,d),x))

\* ------------------------------------------------------------- comparisons
Unordered(a,b,f) == IsNaN(a,f) \/ IsNaN(b,f)
FEq(a,b,f) == ~Unordered(a,b,f) /\ (a = b \/ (IsZeroF(a) /\ IsZeroF(b)))
FLt(a,b,f) == /\ ~Unordered(a,b,f)
              /\ ~(IsZeroF(a) /\ IsZeroF(b))
              /\ IF Sign(a) # Sign(b) THEN Sign(a) = 1
                 ELSE IF Sign(a) = 0 THEN BCmp(a,b) < 0 ELSE BCmp(a,b) > 0
FLe(a,b,f) == FLt(a,b,f) \/ FEq(a,b,f)
\* equality of results where any NaN is as good as another
SameF(a,b,f) == a = b \/ (IsNaN(a,f) /\ IsNaN(b,f))

\* -------------------------------------------------------- integral rounding
\* integer (as dyadic magnitude at exponent 0) nearest to a finite x under mode
IntMag(x,mode) ==
  IF x.e >= 0 THEN BShl(x.m,x.e)
  ELSE LET d == -x.e
           kept == BShr(x.m,d)
           half == BitAt(x.m,d-1) = 1
           rest == BLow(x.m,d-1)
       IN IF RoundUp(mode,x.s,BitAt(kept,0) = 1,half,rest) THEN BAdd(kept,<<1>>) ELSE kept
\* round a floating-point word to an integral value in the same format
FRint(a,f,mode) ==
  IF ~IsFinite(a,f) \/ IsZeroF(a) THEN a
  ELSE LET x == Unpack(a,f) IN
       IF x.e >= 0 THEN a ELSE Round(x.s,IntMag(x,mode),0,FALSE,f,mode)
\* conversion to an n-byte integer; defined only if the integral value fits
FitsInt(s,mag,n,signed) ==
  LET L == BitLen(mag) IN
  IF signed THEN L < 8*n \/ (s = 1 /\ L = 8*n /\ ~BLow(mag,8*n-1)) ELSE (s = 0 \/ L = 0) /\ L <= 8*n
FToIntDefined(a,f,n,signed,mode) == IsFinite(a,f) /\ FitsInt(Sign(a),IntMag(Unpack(a,f),mode),n,signed)
FToInt(a,f,n,mode) == LET x == Unpack(a,f)
                          w == ZExt(IntMag(x,mode),n)
                      IN IF x.s = 1 THEN Neg(w) ELSE w
\* integer word to float
IntToF(w,signed,f) == LET neg == signed /\ IsNeg(w) IN
                      IF IsZero(w) THEN ZeroW(0,f)
                      ELSE Round(IF neg THEN 1 ELSE 0,IF neg THEN Neg(w) ELSE w,0,FALSE,f,f.rm)
\* format to format
FConv(a,f,g) == IF IsNaN(a,f) THEN QNaN(g) ELSE IF IsInf(a,f) THEN InfW(Sign(a),g)
                ELSE LET x == Unpack(a,f) IN Round(x.s,x.m,x.e,FALSE,g,g.rm)

\* ------------------------------------------------- manipulation of exponents
\* two's complement n-byte word of a small TLC integer
IntW(v,n) == IF v >= 0 THEN NatBytes(v,n) ELSE Neg(NatBytes(-v,n))
\* value of a signed word clamped to [-lim, lim]
ClampInt(w,lim) == LET neg == IsNeg(w)
                       m == Abs_(w)
                       v == IF BitLen(m) > 20 THEN lim ELSE Min(Nat_(ZExt(m,3)),lim)
                   IN IF neg THEN -v ELSE v
\* x * 2^k (k: TLC integer)
FScale(a,k,f) == IF ~IsFinite(a,f) \/ IsZeroF(a) THEN a
                 ELSE LET x == Unpack(a,f) IN Round(x.s,x.m,x.e + k,FALSE,f,f.rm)
\* exponent of a finite non-zero value as an integer: 2^e <= |a| < 2^(e+1)
FExp(a,f) == LET x == Unpack(a,f) IN Top(x) - 1
\* frexp fraction of a finite non-zero value
FFrac(a,f) == FScale(a,-(FExp(a,f)+1),f)
FModfInt(a,f) == FRint(a,f,"z")
\* fractional part (exact), carrying the sign of a
FModfFrac(a,f) == IF IsNaN(a,f) THEN a ELSE IF IsInf(a,f) THEN ZeroW(Sign(a),f)
                  ELSE SetSign(FSub(a,FModfInt(a,f),f),Sign(a))
\* ----------------------------------------------------------------- nextafter
FNext(a,b,f) == IF Unordered(a,b,f) THEN QNaN(f)
                ELSE IF FEq(a,b,f) THEN b
                ELSE IF IsZeroF(a) THEN SetSign(One(f.n),Sign(b))
                ELSE IF (FLt(a,b,f)) = (Sign(a) = 0) THEN SetSign(Inc(Mag(a)),Sign(a))
                ELSE SetSign(Dec(Mag(a)),Sign(a))
\* towards a number of a wider format that lies just above (up) or just below b
FNextWide(a,b,up,f) ==
  IF Unordered(a,b,f) \/ ~FEq(a,b,f) THEN FNext(a,b,f)
  ELSE IF IsInf(b,f) /\ (Sign(b) = 0) = up THEN b
  ELSE IF IsZeroF(a) THEN SetSign(One(f.n),IF up THEN 0 ELSE 1)
  ELSE IF up = (Sign(a) = 0) THEN SetSign(Inc(Mag(a)),Sign(a)) ELSE SetSign(Dec(Mag(a)),Sign(a))
\* ------------------------------------------------------------ ulp distance
\* order-preserving index of a non-NaN word as signed word
OrdIdx(w) == IF Sign(w) = 1 THEN Neg(Mag(w)) ELSE w
\* |idx(a) - idx(b)| <= k for a small k
UlpWithin(a,b,k) == LET d == Sub(SExt(OrdIdx(a),Len(a)+1),SExt(OrdIdx(b),Len(a)+1))
                    IN BCmp(Abs_(d),NatBytes(k,4)) <= 0
=============================================================================
