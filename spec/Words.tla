------------------------------- MODULE Words -------------------------------
(* Machine words and natural numbers as little-endian byte tuples.            *)
(* A word of 8*n bits is a tuple of n bytes; a natural ("big") is a byte      *)
(* tuple of any length (high zero bytes allowed).  TLC's integers have 32     *)
(* bits, so wide arithmetic is defined here digit by digit in base 256.       *)
EXTENDS Integers, Sequences, Bitwise, TLC

Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 255]

RECURSIVE NatBytes(_,_)
\* the n low-order bytes of a (small, non-negative) integer
NatBytes(v,n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o NatBytes(v \div 256, n-1)

RECURSIVE NatAt(_,_)
NatAt(a,i) == IF i > Len(a) THEN 0 ELSE a[i] + 256 * NatAt(a,i+1)
\* value of a byte tuple as a TLC integer (caller guarantees < 2^31)
Nat_(a) == NatAt(a,1)

\* ---------------------------------------------------------------- addition
RECURSIVE AddC(_,_,_,_)
AddC(a,b,i,c) == IF i > Len(a) THEN <<>>
                 ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a,b,i+1,s \div 256)
\* modulo 2^(8n), operands of equal length
Add(a,b) == AddC(a,b,1,0)
NotW(a)   == [i \in 1..Len(a) |-> 255 - a[i]]
Sub(a,b) == AddC(a,NotW(b),1,1)
Neg(a)   == AddC(Zeros(Len(a)),NotW(a),1,1)
One(n)   == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Inc(a)   == Add(a,One(Len(a)))
Dec(a)   == Add(a,Ones(Len(a)))

\* ---------------------------------------------------------- multiplication
RECURSIVE Conv(_,_,_,_)
\* sum of a[i]*b[k+1-i] over valid i >= i0
Conv(a,b,k,i) == IF i > Len(a) \/ i > k THEN 0
                 ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k+1-i] ELSE 0) + Conv(a,b,k,i+1)
RECURSIVE MulC(_,_,_,_,_)
MulC(a,b,k,n,c) == IF k > n THEN <<>>
                   ELSE LET s == Conv(a,b,k,1) + c IN <<s % 256>> \o MulC(a,b,k+1,n,s \div 256)
Mul(a,b)  == MulC(a,b,1,Len(a),0)            \* modulo 2^(8n)
BMul(a,b) == MulC(a,b,1,Len(a)+Len(b),0)     \* full product

\* -------------------------------------------------------------- comparison
Byte(a,i) == IF i <= Len(a) THEN a[i] ELSE 0
Max(x,y) == IF x >= y THEN x ELSE y
Min(x,y) == IF x <= y THEN x ELSE y
RECURSIVE CmpAt(_,_,_)
CmpAt(a,b,i) == IF i = 0 THEN 0
                ELSE IF Byte(a,i) < Byte(b,i) THEN -1
                ELSE IF Byte(a,i) > Byte(b,i) THEN 1 ELSE CmpAt(a,b,i-1)
\* -1, 0, 1 as naturals (lengths may differ)
BCmp(a,b) == CmpAt(a,b,Max(Len(a),Len(b)))
ULt(a,b) == BCmp(a,b) < 0
IsNeg(a) == a[Len(a)] >= 128
SLt(a,b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE BCmp(a,b) < 0
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Lt(signed,a,b) == IF signed THEN SLt(a,b) ELSE ULt(a,b)

\* ------------------------------------------------------------ bit operators
AndW(a,b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrW(a,b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
XorW(a,b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
\* bit k (0-based) of a natural
BitAt(a,k) == (Byte(a,1 + (k \div 8)) \div (2^(k % 8))) % 2

\* ------------------------------------------------------------------- shifts
\* shift left by k bits, keeping n bytes
ShlN(a,k,n) == LET q == k \div 8
                   r == k % 8
                   m == 2^r
               IN [i \in 1..n |-> LET lo == IF i - q - 1 >= 1 THEN Byte(a,i-q-1) ELSE 0
                                      hi == IF i - q >= 1 THEN Byte(a,i-q) ELSE 0
                                  IN (hi * m + (lo * m) \div 256) % 256]
Shl(a,k)  == ShlN(a,k,Len(a))
BShl(a,k) == ShlN(a,k,Len(a) + (k \div 8) + 1)
\* shift right with the given fill byte (0 or 255)
ShrFill(a,k,fill) == LET q == k \div 8
                         r == k % 8
                         m == 2^r
                         B(i) == IF i <= Len(a) THEN a[i] ELSE fill
                     IN [i \in 1..Len(a) |-> (B(i+q) \div m) + ((B(i+q+1) * (256 \div m)) % 256)]
Shr(a,k) == ShrFill(a,k,0)
Sar(a,k) == ShrFill(a,k,IF IsNeg(a) THEN 255 ELSE 0)

\* ----------------------------------------------------------- width changes
ZExt(a,n) == [i \in 1..n |-> Byte(a,i)]
SExt(a,n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 255 ELSE 0]
Resize(signed,a,n) == IF signed THEN SExt(a,n) ELSE ZExt(a,n)

\* ------------------------------------------------------- naturals (bignums)
RECURSIVE TopAt(_,_)
TopAt(a,i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE TopAt(a,i-1)
ByteBits(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5
               ELSE IF b >= 8 THEN 4 ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE b
\* number of significant bits
BitLen(a) == LET t == TopAt(a,Len(a)) IN IF t = 0 THEN 0 ELSE 8*(t-1) + ByteBits(a[t])
BAdd(a,b) == LET n == Max(Len(a),Len(b)) + 1 IN Add(ZExt(a,n),ZExt(b,n))
\* a >= b
BSub(a,b) == LET n == Max(Len(a),Len(b)) IN Sub(ZExt(a,n),ZExt(b,n))
BTrim(a)  == SubSeq(a,1,TopAt(a,Len(a)))
BShr(a,k) == LET q == k \div 8
                 r == k % 8
                 m == 2^r
                 n == Len(a) - q
             IN IF n <= 0 THEN <<0>>
                ELSE [i \in 1..n |-> (Byte(a,i+q) \div m) + ((Byte(a,i+q+1) * (256 \div m)) % 256)]
\* are any of the k low-order bits set?
BLow(a,k) == \/ \E i \in 1..Min(k \div 8,Len(a)) : a[i] # 0
             \/ (Byte(a,1 + (k \div 8)) % (2^(k % 8))) # 0

\* ----------------------------------------------------------------- division
\* a + 256*... scaled by a digit: m*d as a natural one byte longer
RECURSIVE Scale1(_,_,_,_)
Scale1(m,d,i,c) == IF i > Len(m) THEN <<c>>
                   ELSE LET s == m[i]*d + c IN <<s % 256>> \o Scale1(m,d,i+1,s \div 256)
\* largest digit d in lo..hi with b*d <= r
RECURSIVE Digit(_,_,_,_)
Digit(r,b,lo,hi) == IF lo = hi THEN lo
                    ELSE LET mid == (lo + hi + 1) \div 2 IN
                         IF BCmp(Scale1(b,mid,1,0),r) <= 0 THEN Digit(r,b,mid,hi) ELSE Digit(r,b,lo,mid-1)
\* schoolbook division in base 256: digits of a from k downwards; r is the running
\* remainder, q the quotient so far; b has n significant bytes.  The quotient digit
\* lies between the bounds given by the leading two bytes of b and three of r.
RECURSIVE DivLoop(_,_,_,_,_,_)
DivLoop(a,b,n,k,q,r) ==
  IF k = 0 THEN <<q,r>>
  ELSE LET r2 == <<a[k]>> \o r
           top == Byte(r2,n+1)*65536 + Byte(r2,n)*256 + (IF n > 1 THEN Byte(r2,n-1) ELSE 0)
           bt  == b[n]*256 + (IF n > 1 THEN b[n-1] ELSE 0)
           d == Digit(r2,b,top \div (bt+1),Min(255,(top+1) \div bt))
       IN IF top < bt THEN DivLoop(a,b,n,k-1,<<0>> \o q,r2)
          ELSE DivLoop(a,b,n,k-1,<<d>> \o q,IF d = 0 THEN r2 ELSE BTrim(BSub(r2,Scale1(b,d,1,0))))
\* <<quotient, remainder>> of naturals, b # 0
BDivMod(a,b) == LET t == BTrim(b) IN DivLoop(a,t,Len(t),Len(a),<<>>,<<>>)
UDiv(a,b) == ZExt(BDivMod(a,b)[1],Len(a))
UMod(a,b) == ZExt(BDivMod(a,b)[2],Len(a))
Abs_(a) == IF IsNeg(a) THEN Neg(a) ELSE a
SDiv(a,b) == LET q == UDiv(Abs_(a),Abs_(b)) IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
SMod(a,b) == LET r == UMod(Abs_(a),Abs_(b)) IN IF IsNeg(a) THEN Neg(r) ELSE r
=============================================================================
