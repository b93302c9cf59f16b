------------------------------ MODULE MathFns ------------------------------
(* Elementary functions: what the C standard (Annex F) fixes for special      *)
(* arguments, and the accuracy relation for every other argument against an   *)
(* enclosure of the true value.                                               *)
EXTENDS Floats

\* ------------------------------------------------------------ value classes
Num(v,f)   == Round(0,NatBytes(v,2),0,FALSE,f,"ne")           \* small natural
OneF(f)    == Num(1,f)
IsOne(x,f) == x = OneF(f)
Above1(x,f) == BCmp(Mag(x),OneF(f)) > 0                       \* |x| > 1 (not NaN)
Below1(x,f) == BCmp(Mag(x),OneF(f)) < 0
IsIntF(x,f) == IsFinite(x,f) /\ (IsZeroF(x) \/ LET u == Unpack(x,f) IN u.e >= 0 \/ ~BLow(u.m,-u.e))
IsOddF(x,f) == IsIntF(x,f) /\ ~IsZeroF(x)
               /\ LET u == Unpack(x,f) IN u.e <= 0 /\ BitAt(u.m,-u.e) = 1
NegF(x) == Sign(x) = 1

\* -------------------------------------------- requirements on a single result
None    == [k |-> "none"]          \* ordinary argument: accuracy relation applies
AnyR    == [k |-> "any"]           \* nothing is required
NaNR    == [k |-> "nan"]
Is(w)   == [k |-> "is", w |-> w]
PiR(s,num,sh) == [k |-> "pi", s |-> s, num |-> num, sh |-> sh]   \* (-1)^s * num * pi / 2^sh
IsEither(w,v) == [k |-> "or", w |-> w, v |-> v]

\* one argument, x not NaN
Special1(fn,x,f) ==
  LET z == IsZeroF(x)
      inf == IsInf(x,f)
      s == Sign(x)
  IN CASE fn \in {"sin","tan"} -> IF z THEN Is(x) ELSE IF inf THEN NaNR ELSE None
       [] fn = "cos" -> IF z THEN Is(OneF(f)) ELSE IF inf THEN NaNR ELSE None
       [] fn = "asin" -> IF z THEN Is(x) ELSE IF Above1(x,f) THEN NaNR ELSE None
       [] fn = "acos" -> IF IsOne(x,f) THEN Is(ZeroW(0,f)) ELSE IF Above1(x,f) THEN NaNR ELSE None
       [] fn = "atan" -> IF z THEN Is(x) ELSE IF inf THEN PiR(s,1,1) ELSE None
       [] fn \in {"sinh","asinh","cbrt"} -> IF z \/ inf THEN Is(x) ELSE None
       [] fn = "cosh" -> IF z THEN Is(OneF(f)) ELSE IF inf THEN Is(InfW(0,f)) ELSE None
       [] fn \in {"tanh","erf"} -> IF z THEN Is(x) ELSE IF inf THEN Is(SetSign(OneF(f),s)) ELSE None
       [] fn = "acosh" -> IF IsOne(x,f) THEN Is(ZeroW(0,f))
                          ELSE IF s = 1 \/ Below1(x,f) THEN NaNR
                          ELSE IF inf THEN Is(x) ELSE None
       [] fn = "atanh" -> IF z THEN Is(x) ELSE IF Above1(x,f) THEN NaNR
                          ELSE IF Mag(x) = OneF(f) THEN Is(InfW(s,f)) ELSE None
       [] fn \in {"exp","exp2"} -> IF z THEN Is(OneF(f))
                                   ELSE IF inf THEN Is(IF s = 1 THEN ZeroW(0,f) ELSE x) ELSE None
       [] fn = "expm1" -> IF z THEN Is(x)
                          ELSE IF inf THEN Is(IF s = 1 THEN SetSign(OneF(f),1) ELSE x) ELSE None
       [] fn \in {"log","log2","log10"} -> IF z THEN Is(InfW(1,f)) ELSE IF s = 1 THEN NaNR
                                           ELSE IF inf THEN Is(x)
                                           ELSE IF IsOne(x,f) THEN Is(ZeroW(0,f)) ELSE None
       [] fn = "log1p" -> IF z THEN Is(x)
                          ELSE IF s = 1 /\ Mag(x) = OneF(f) THEN Is(InfW(1,f))
                          ELSE IF s = 1 /\ Above1(x,f) THEN NaNR
                          ELSE IF inf THEN Is(x) ELSE None
       [] fn = "sqrt" -> IF z THEN Is(x) ELSE IF s = 1 THEN NaNR ELSE IF inf THEN Is(x) ELSE None
       [] fn = "rcp"  -> IF z THEN Is(InfW(s,f)) ELSE IF inf THEN Is(ZeroW(s,f)) ELSE None
       [] fn = "rsqrt" -> IF z THEN Is(InfW(s,f)) ELSE IF s = 1 THEN NaNR
                          ELSE IF inf THEN Is(ZeroW(0,f)) ELSE None
       [] fn = "erfc" -> IF z THEN Is(OneF(f))
                         ELSE IF inf THEN Is(IF s = 1 THEN Num(2,f) ELSE ZeroW(0,f)) ELSE None
       [] fn = "tgamma" -> IF z THEN Is(InfW(s,f))
                           ELSE IF inf THEN (IF s = 1 THEN NaNR ELSE Is(x))
                           ELSE IF s = 1 /\ IsIntF(x,f) THEN NaNR ELSE None
       [] fn = "lgamma" -> IF inf \/ z \/ (s = 1 /\ IsIntF(x,f)) THEN Is(InfW(0,f))
                           ELSE IF IsOne(x,f) \/ x = Num(2,f) THEN Is(ZeroW(0,f)) ELSE None

\* two arguments
SpecialAtan2(y,x,f) ==
  IF Unordered(y,x,f) THEN NaNR
  ELSE LET s == Sign(y) IN
       IF IsZeroF(y) THEN (IF Sign(x) = 1 THEN PiR(s,1,0) ELSE Is(y))
       ELSE IF IsInf(y,f) THEN (IF IsInf(x,f) THEN PiR(s,IF Sign(x) = 1 THEN 3 ELSE 1,2) ELSE PiR(s,1,1))
       ELSE IF IsZeroF(x) THEN PiR(s,1,1)
       ELSE IF IsInf(x,f) THEN (IF Sign(x) = 1 THEN PiR(s,1,0) ELSE Is(ZeroW(s,f)))
       ELSE None
SpecialHypot(a,b,f) ==
  IF IsInf(a,f) \/ IsInf(b,f)
  THEN (IF IsSNaN(a,f) \/ IsSNaN(b,f) THEN AnyR ELSE Is(InfW(0,f)))
  ELSE IF Unordered(a,b,f) THEN NaNR
  ELSE IF IsZeroF(a) THEN Is(Mag(b)) ELSE IF IsZeroF(b) THEN Is(Mag(a)) ELSE None
SpecialPow(x,y,f) ==
  IF IsSNaN(x,f) \/ IsSNaN(y,f) THEN AnyR
  ELSE IF IsZeroF(y) \/ IsOne(x,f) THEN Is(OneF(f))
  ELSE IF Unordered(x,y,f) THEN NaNR
  ELSE LET odd == IsOddF(y,f)
           ny == NegF(y)
           rs == IF odd THEN Sign(x) ELSE 0
       IN IF IsZeroF(x) THEN Is(IF ny THEN InfW(rs,f) ELSE ZeroW(rs,f))
          ELSE IF IsInf(x,f) THEN Is(IF ny THEN ZeroW(rs,f) ELSE InfW(rs,f))
          ELSE IF IsInf(y,f)
               THEN (IF Mag(x) = OneF(f) THEN Is(OneF(f))
                     ELSE IF Above1(x,f) = ny THEN Is(ZeroW(0,f)) ELSE Is(InfW(0,f)))
          ELSE IF NegF(x) /\ ~IsIntF(y,f) THEN NaNR
          ELSE IF Mag(x) = OneF(f) THEN Is(SetSign(OneF(f),rs)) ELSE None

Special(fn,a,b,f) ==
  CASE fn = "atan2" -> SpecialAtan2(a,b,f)
    [] fn = "hypot" -> SpecialHypot(a,b,f)
    [] fn = "pow"   -> SpecialPow(a,b,f)
    [] OTHER        -> IF IsNaN(a,f) THEN NaNR ELSE Special1(fn,a,f)

\* ------------------------------------------------------------ error budgets
\* q: quarter ulps of the result.  abs: an absolute error of 2^a is tolerated as well
\* (the table-driven logarithms are not relatively accurate near their zero).
Budget0(fn,f) ==
  LET q(v) == [q |-> v, a |-> 0, abs |-> FALSE] IN
  CASE fn \in {"log","log2","log10","log1p"} ->
         IF f.n = 4 THEN [q |-> 32, a |-> -21, abs |-> TRUE] ELSE [q |-> 32, a |-> -52, abs |-> TRUE]
    [] fn \in {"rcp","rsqrt"} -> IF f.n = 4 THEN q(32768) ELSE q(12)  \* single precision: hardware approximation, 1.5*2^-12
    [] fn \in {"tgamma","lgamma"} -> q(64)
    [] fn = "sqrt" -> q(2)
    [] OTHER -> q(24)

\* directed rounding modes: every one of the errors may double, and they no longer cancel
Budget(fn,f) == LET b == Budget0(fn,f) IN IF f.rm = "ne" THEN b ELSE [b EXCEPT !.q = 4*b.q, !.a = b.a + 2]

\* r is within the budget of the value ref (dyadic [s,m,e]); overflow rounds to infinity
Near(r,ref,f,bud) ==
  IF IsNaN(r,f) THEN FALSE
  ELSE LET over == Top(ref) >= f.emax + 2
           lim == [s |-> 0, m |-> <<1>>, e |-> f.emax + 1]
           x == IF over THEN lim ELSE [ref EXCEPT !.s = 0]
           y == IF IsInf(r,f) THEN lim ELSE [Unpack(r,f) EXCEPT !.s = 0]
           d == AddD(x,[y EXCEPT !.s = 1])
           u == Min(Max(Top(x) - f.p,Qmin(f)),f.emax + 1 - f.p)
           \* difference of the signed values, for the absolute tolerance
           sd == AddD(ref,IF IsInf(r,f) THEN [lim EXCEPT !.s = 1 - Sign(r)] ELSE [Unpack(r,f) EXCEPT !.s = 1 - Sign(r)])
       IN \/ /\ Sign(r) = ref.s
             /\ CmpMag(d,[s |-> 0, m |-> NatBytes(bud.q,3), e |-> u - 2]) <= 0
          \/ /\ bud.abs /\ ~over
             /\ CmpMag(sd,[s |-> 0, m |-> <<1>>, e |-> bud.a]) <= 0

\* floor(pi * 2^120)
PiM == <<115,112,3,46,138,25,19,211,8,163,133,136,106,63,36,3>>
PiVal(s,num,sh) == [s |-> s, m |-> BMul(PiM,<<num>>), e |-> -120 - sh]

\* subnormal arguments / results of the hardware approximations may be flushed
Flushed(fn,a,r,ref,f) ==
  /\ f.n = 4
  /\ \/ fn = "rcp" /\ IsSub(a,f) /\ r = InfW(Sign(a),f)
     \/ fn = "rcp" /\ Top(ref) <= f.emin + 1 /\ r = ZeroW(Sign(a),f)
     \/ fn = "rsqrt" /\ IsSub(a,f) /\ r = InfW(Sign(a),f)

LaneOk(fn,a,b,r,ref,f) ==
  LET sp == Special(fn,a,b,f) IN
  \/ CASE sp.k = "any"  -> TRUE
       [] sp.k = "nan"  -> IsNaN(r,f)
       \* x - x is -0 when rounding downward: only to nearest is the sign of a zero specified
       [] sp.k = "is"   -> r = sp.w \/ (f.rm # "ne" /\ IsZeroF(r) /\ IsZeroF(sp.w))
       [] sp.k = "pi"   -> Near(r,PiVal(sp.s,sp.num,sp.sh),f,Budget(fn,f))
       [] sp.k = "none" -> IF fn = "sqrt" THEN FSqrtOk(a,r,f) ELSE Near(r,ref,f,Budget(fn,f))
  \/ Flushed(fn,a,r,ref,f)
=============================================================================
