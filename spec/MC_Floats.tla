----------------------------- MODULE MC_Floats -----------------------------
(* Exhaustive check of Floats on 8-bit formats against independent            *)
(* definitions over integers: a value is n * 2^-SC as a TLC integer n, and    *)
(* correct rounding is "no representable value is closer".                     *)
EXTENDS Floats, FiniteSets
CONSTANT F8, SCE      \* format, and the scale exponent: Qmin(F8) = -SCE
VARIABLES a, b

W(v) == <<v>>
\* independent decoding by arithmetic on the bit fields
K == 2^(F8.p-1)
RawVal(v) == LET mg == v % 128
                 be == mg \div K
                 fr == mg % K
                 u == IF be = 0 THEN fr ELSE (K + fr) * 2^(be-1)
             IN IF v >= 128 THEN -u ELSE u            \* in units of 2^Qmin
Infv == (MaxBiased(F8)) * K
Nanv(v) == v % 128 > Infv
Finv(v) == v % 128 < Infv
Fin == {v \in 0..255 : Finv(v)}
AbsI(x) == IF x < 0 THEN -x ELSE x
\* largest finite value plus half a step: at or above it rounding overflows
Vmax == RawVal(Infv - 1)
Step == Vmax - RawVal(Infv - 2)
\* ok(r, num, den): r is the nearest-even rounding of num/den (units of 2^Qmin), den > 0
NearOk(r,num,den) ==
  IF 2*AbsI(num) >= (2*Vmax + Step)*den THEN r % 128 = Infv /\ ((r >= 128) = (num < 0))
  ELSE /\ Finv(r)
       /\ LET d(v) == AbsI(RawVal(v)*den - num) IN
          /\ \A v \in Fin : d(v) >= d(r)
          /\ (\E v \in Fin : RawVal(v) # RawVal(r) /\ d(v) = d(r)) => r % 2 = 0
AddLaw == LET r == FAdd(W(a),W(b),F8)[1] IN
  IF Finv(a) /\ Finv(b) THEN
     /\ NearOk(r,RawVal(a)+RawVal(b),1)
     /\ (RawVal(a)+RawVal(b) = 0) => r = (IF a >= 128 /\ b >= 128 THEN 128 ELSE 0)
  ELSE IF Nanv(a) \/ Nanv(b) \/ (a % 128 = Infv /\ b % 128 = Infv /\ a # b) THEN Nanv(r)
  ELSE r = IF Finv(a) THEN b ELSE a
\* products: units of 2^(2*Qmin); represent as num / 2^SCE in units of 2^Qmin
MulLaw == LET r == FMul(W(a),W(b),F8)[1] IN
  IF Finv(a) /\ Finv(b) THEN
     /\ NearOk(r,RawVal(a)*RawVal(b),2^SCE)
     /\ (r >= 128) = ((a >= 128) # (b >= 128))
  ELSE IF Nanv(a) \/ Nanv(b) \/ a % 128 = 0 \/ b % 128 = 0 THEN Nanv(r)
  ELSE r % 128 = Infv /\ ((r >= 128) = ((a >= 128) # (b >= 128)))
Sgn(x) == IF x < 0 THEN -1 ELSE 1
DivLaw == (Finv(a) /\ Finv(b) /\ RawVal(b) # 0) =>
     /\ Cardinality({r \in 0..255 : FDivOk(W(a),W(b),W(r),F8)}) = 1
     /\ \A r \in 0..255 : FDivOk(W(a),W(b),W(r),F8)
           <=> /\ NearOk(r,Sgn(RawVal(b))*RawVal(a)*2^SCE,AbsI(RawVal(b)))
               /\ (r >= 128) = ((a >= 128) # (b >= 128))
FmaLaw == \A c \in {0,1,2,37,Infv-1,128,129,181,128+Infv-1} : LET r == FFma(W(a),W(b),W(c),F8)[1] IN
     (Finv(a) /\ Finv(b)) => NearOk(r,RawVal(a)*RawVal(b) + RawVal(c)*2^SCE,2^SCE)
CmpLaw == /\ FLt(W(a),W(b),F8) = (~Nanv(a) /\ ~Nanv(b) /\
               LET v(x) == IF Finv(x) THEN RawVal(x) ELSE (IF x >= 128 THEN -1 ELSE 1) * (Vmax+1) IN v(a) < v(b))
          /\ FEq(W(a),W(b),F8) => (RawVal(a) = RawVal(b))
NextLaw == (Finv(a) /\ ~Nanv(b)) => LET r == FNext(W(a),W(b),F8)[1] IN
     IF FEq(W(a),W(b),F8) THEN r = b
     ELSE IF FLt(W(a),W(b),F8) THEN FLt(W(a),W(r),F8) /\ ~\E v \in 0..255 : FLt(W(a),W(v),F8) /\ FLt(W(v),W(r),F8)
     ELSE FLt(W(r),W(a),F8) /\ ~\E v \in 0..255 : FLt(W(r),W(v),F8) /\ FLt(W(v),W(a),F8)
\* unary laws (evaluated once per a, when b = 0)
IntOk(r,mode) == \* r is an integral value related to a by mode
  LET one == 2^SCE
      x == RawVal(a)
      fl == (x \div one) * one
      ce == -(((-x) \div one) * one)
      want == CASE mode = "d" -> {fl} [] mode = "u" -> {ce} [] mode = "z" -> {IF x < 0 THEN ce ELSE fl}
                [] mode = "na" -> (IF x - fl < ce - x THEN {fl} ELSE IF x - fl > ce - x THEN {ce} ELSE IF x < 0 THEN {fl} ELSE {ce})
                [] mode = "ne" -> (IF x - fl < ce - x THEN {fl} ELSE IF x - fl > ce - x THEN {ce} ELSE IF (fl \div one) % 2 = 0 THEN {fl} ELSE {ce})
  IN r % 128 <= Infv /\ (Finv(r) => RawVal(r) \in want) /\ ((r >= 128) = (a >= 128))
     /\ (~Finv(r) => \A v \in want : AbsI(v) > Vmax)
UnaryLaw == (b = 0 /\ Finv(a)) =>
   /\ \A mode \in {"ne","na","z","u","d"} : IntOk(FRint(W(a),F8,mode)[1],mode)
   /\ \A r \in 0..255 : FSqrtOk(W(a),W(r),F8) <=>
        IF RawVal(a) < 0 THEN Nanv(r)
        ELSE IF RawVal(a) = 0 THEN r = a
        ELSE /\ r < Infv
             /\ LET x == RawVal(a) * 2^SCE * 4
                    up == 2*RawVal(r) + (RawVal(r+1) - RawVal(r))
                    dn == 2*RawVal(r) - (RawVal(r) - RawVal(r-1))
                IN r > 0 /\ (IF r % 2 = 0 THEN x <= up*up ELSE x < up*up)
                         /\ (IF r % 2 = 0 THEN x >= dn*dn ELSE x > dn*dn)
   /\ (RawVal(a) # 0) => LET e == FExp(W(a),F8) + SCE IN AbsI(RawVal(a)) \div (2^e) = 1
   /\ (RawVal(a) # 0 /\ F8.emin < -1) => LET fr == FFrac(W(a),F8)[1] IN   \* exact only if 1/2 is normal
        /\ 2*AbsI(RawVal(fr)) >= 2^SCE /\ AbsI(RawVal(fr)) < 2^SCE
        /\ FScale(W(fr),FExp(W(a),F8)+1,F8)[1] = a
   /\ FAdd(FModfInt(W(a),F8),FModfFrac(W(a),F8),F8)[1] = a
   /\ IntToF(FToInt(W(a),F8,4,"z"),TRUE,F8)[1] % 128 = FModfInt(W(a),F8)[1] % 128
   /\ \A k \in {-9,-3,-1,1,2,5} : NearOk(FScale(W(a),k,F8)[1],RawVal(a)*(IF k > 0 THEN 2^k ELSE 1),IF k < 0 THEN 2^(-k) ELSE 1)
   /\ FConv(FConv(W(a),F8,Binary32),Binary32,F8)[1] = a
   /\ FConv(FConv(W(a),F8,Binary64),Binary64,F8)[1] = a
\* directed rounding: the nearest representable value on the demanded side
DirOk(r,num,den,s,mode) ==   \* s: sign of the real (of an exact zero: as demanded by the operation)
  LET up == mode = "u" \/ (mode = "z" /\ s = 1)
      side == {v \in Fin : IF up THEN RawVal(v)*den >= num ELSE RawVal(v)*den <= num}
  IN IF side = {} THEN r = (IF up THEN 0 ELSE 128) + Infv
     ELSE /\ Finv(r) /\ r \in side /\ (r >= 128) = (s = 1)
          /\ \A v \in side : IF up THEN RawVal(v) >= RawVal(r) ELSE RawVal(v) <= RawVal(r)
SgnOf(x,z) == IF x < 0 THEN 1 ELSE IF x > 0 THEN 0 ELSE z
X3(x,y) == IF (x >= 128) # (y >= 128) THEN 1 ELSE 0
DirLaw == (Finv(a) /\ Finv(b)) => \A mode \in {"u","d","z"} :
  LET g == InMode(F8,mode)
      zs == IF mode = "d" THEN 1 ELSE 0
      sum == RawVal(a) + RawVal(b)
      prod == RawVal(a)*RawVal(b)
  IN /\ DirOk(FAdd(W(a),W(b),g)[1],sum,1,SgnOf(sum,IF (a >= 128) = (b >= 128) THEN SgnOf(-(a \div 128),0) ELSE zs),mode)
     /\ DirOk(FMul(W(a),W(b),g)[1],prod,2^SCE,X3(a,b),mode)
     /\ \A c \in {1,37,Infv-1,129,181,128+Infv-1} :
          LET v == prod + RawVal(c)*2^SCE IN DirOk(FFma(W(a),W(b),W(c),g)[1],v,2^SCE,SgnOf(v,zs),mode)
     /\ RawVal(b) # 0 => \A r \in 0..255 : FDivOk(W(a),W(b),W(r),g) <=>
          DirOk(r,Sgn(RawVal(b))*RawVal(a)*2^SCE,AbsI(RawVal(b)),X3(a,b),mode)
     /\ (b = 0 /\ a < 128 /\ a > 0) => \A r \in 0..255 : FSqrtOk(W(a),W(r),g) <=>
          /\ r < Infv
          /\ LET x == RawVal(a) * 2^SCE IN
               IF mode = "u" THEN RawVal(r)*RawVal(r) >= x /\ RawVal(r-1)*RawVal(r-1) < x
               ELSE RawVal(r)*RawVal(r) <= x /\ RawVal(r+1)*RawVal(r+1) > x
CONSTANT Ds
Init == a \in 0..255 /\ b = 0
Next == b = 0 /\ a' = a /\ b' \in (Ds \ {0})
Spec == Init /\ [][Next]_<<a,b>>
Inv == AddLaw /\ MulLaw /\ DivLaw /\ FmaLaw /\ CmpLaw /\ NextLaw /\ UnaryLaw /\ DirLaw
=============================================================================
