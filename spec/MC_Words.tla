------------------------------ MODULE MC_Words ------------------------------
(* Exhaustive check of Words on bytes against TLC's integers, and of its       *)
(* multi-byte algorithms against independent laws on a grid of wide words.     *)
EXTENDS Words
CONSTANT Digits, Shifts            \* bytes the wide words are made of, shift counts
VARIABLES n, a, b
Mod(x,m) == ((x % m) + m) % m
S8(x) == IF x >= 128 THEN x - 256 ELSE x
TDiv(x,y) == LET ax == IF x < 0 THEN -x ELSE x
                 ay == IF y < 0 THEN -y ELSE y
                 q == ax \div ay IN IF (x < 0) # (y < 0) THEN -q ELSE q
\* bytes
ByteLaw == n = 1 =>
  LET x == a[1]
      y == b[1]
  IN /\ Add(a,b) = <<Mod(x + y,256)>> /\ Sub(a,b) = <<Mod(x - y,256)>> /\ Neg(a) = <<Mod(-x,256)>>
     /\ Mul(a,b) = <<Mod(x * y,256)>> /\ Nat_(BMul(a,b)) = x * y
     /\ Inc(a) = <<Mod(x + 1,256)>> /\ Dec(a) = <<Mod(x - 1,256)>> /\ NotW(a) = <<255 - x>>
     /\ ULt(a,b) = (x < y) /\ SLt(a,b) = (S8(x) < S8(y)) /\ IsNeg(a) = (x > 127)
     /\ y # 0 => /\ UDiv(a,b) = <<x \div y>> /\ UMod(a,b) = <<x % y>>
                 /\ SDiv(a,b) = <<Mod(TDiv(S8(x),S8(y)),256)>>
                 /\ SMod(a,b) = <<Mod(S8(x) - TDiv(S8(x),S8(y)) * S8(y),256)>>
     /\ y < 8 => /\ Shl(a,y) = <<Mod(x * 2^y,256)>> /\ Shr(a,y) = <<x \div 2^y>>
                 /\ Sar(a,y) = <<Mod(S8(x) \div 2^y,256)>>      \* \div rounds down
     /\ \A k \in 0..7 : LET bt(v) == (v \div 2^k) % 2 IN
          /\ BitAt(AndW(a,b),k) = bt(x) * bt(y) /\ BitAt(OrW(a,b),k) = Max(bt(x),bt(y))
          /\ BitAt(XorW(a,b),k) = (bt(x) + bt(y)) % 2
     /\ BitLen(a) = (IF x = 0 THEN 0 ELSE CHOOSE k \in 1..8 : x >= 2^(k-1) /\ x < 2^k)
     /\ Nat_(SExt(a,2)) = Mod(S8(x),65536) /\ Nat_(ZExt(a,3)) = x
\* shift and add, one bit of b at a time
RECURSIVE SlowMul(_,_,_)
SlowMul(x,y,k) == IF k = 8*Len(x) THEN Zeros(Len(x))
                  ELSE Add(IF BitAt(y,k) = 1 THEN Shl(x,k) ELSE Zeros(Len(x)),SlowMul(x,y,k+1))
RECURSIVE Times2(_,_)
Times2(x,k) == IF k = 0 THEN x ELSE Times2(Add(x,x),k-1)
WideLaw == n > 1 =>
  /\ Add(a,b) = Add(b,a) /\ Sub(Add(a,b),b) = a /\ Add(a,Neg(a)) = Zeros(n) /\ Sub(a,b) = Neg(Sub(b,a))
  /\ Mul(a,b) = SlowMul(a,b,0) /\ SubSeq(BMul(a,b),1,n) = Mul(a,b)
  /\ ULt(a,b) = (\E i \in 1..n : a[i] < b[i] /\ \A j \in i+1..n : a[j] = b[j])
  /\ SLt(a,b) = ULt([a EXCEPT ![n] = (a[n] + 128) % 256],[b EXCEPT ![n] = (b[n] + 128) % 256])
  /\ ~IsZero(b) => /\ Add(Mul(UDiv(a,b),b),UMod(a,b)) = a /\ ULt(UMod(a,b),b)
                   /\ BCmp(BMul(UDiv(a,b),b),a) <= 0
                   /\ Add(Mul(SDiv(a,b),b),SMod(a,b)) = a /\ ULt(Abs_(SMod(a,b)),Abs_(b))
                   /\ IsZero(SMod(a,b)) \/ IsNeg(SMod(a,b)) = IsNeg(a)
  /\ \A k \in Shifts : k < 8*n =>
        /\ Shl(a,k) = Times2(a,k)
        /\ \A j \in 0..(8*n-1) : /\ BitAt(Shr(a,k),j) = (IF j + k < 8*n THEN BitAt(a,j+k) ELSE 0)
                                 /\ BitAt(Sar(a,k),j) = BitAt(a,Min(j+k,8*n-1))
                                 /\ BitAt(BShl(a,k),j+k) = BitAt(a,j)
        /\ BCmp(BShr(a,k),Shr(a,k)) = 0 /\ BLow(a,k) = (\E j \in 0..(k-1) : BitAt(a,j) = 1)
  /\ BSub(BAdd(a,b),b) = ZExt(a,n+1)
  /\ SExt(a,n+2) = Neg(SExt(Neg(a),n+2)) \/ a = [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
Init == \/ n = 1 /\ a \in {<<v>> : v \in 0..255} /\ b = <<0>>
        \/ n \in {2,4} /\ a \in [1..n -> Digits] /\ b = Zeros(n)
        \/ n = 8 /\ b = Zeros(n) /\ a \in {[i \in 1..8 |-> IF i <= 4 THEN x[i] ELSE y[i-4]] : x \in [1..4 -> {0,255}], y \in {<<0,0,0,1>>,<<1,0,127,128>>,<<127,128,0,0>>,<<255,0,1,127>>,<<0,0,0,128>>,<<128,1,255,255>>}}
Next == /\ IsZero(b) /\ UNCHANGED <<n,a>>
        /\ IF n = 1 THEN b' \in {<<v>> : v \in 1..255}
           ELSE IF n = 2 THEN b' \in [1..2 -> Digits] \ {<<0,0>>}
           ELSE \E d \in Digits, e \in Digits, k \in 1..n : b' = [i \in 1..n |-> IF i = k THEN d ELSE IF i = 1 + ((k + 2) % n) THEN e ELSE IF i < k THEN d ELSE 0] /\ ~IsZero(b')
Spec == Init /\ [][Next]_<<n,a,b>>
Inv == ByteLaw /\ WideLaw
=============================================================================
