-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arbitrary-precision (28 decimal digit) floating point arithmetic in     *)
(* plain TLA+.  TLC integers are 32 bit, so a real number is a triple      *)
(*          <<s, e, m>>   s \in {-1,0,1}, e \in Int, m \in Seq(0..9999)    *)
(* denoting  s * 0.m1 m2 ... m7 * (10^4)^e   with Len(m) = 7 and m1 # 0,   *)
(* and zero is <<0, 0, Z7>>.  The harness encodes the doubles observed in  *)
(* the implementation the same way (exactly to 28 digits).                 *)
(* Every operator truncates: relative error per operation < 10^-23.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

B   == 10000
NL  == 7
Z7  == <<0,0,0,0,0,0,0>>
Zero == <<0, 0, Z7>>

(* Normalise a 8-limb magnitude (first limb is the carry limb, may be 0). *)
\* v: sequence of 8 nonnegative limbs < B; e: exponent belonging to limb 2.
RECURSIVE LeadZ(_, _)
LeadZ(v, i) == IF i > Len(v) THEN Len(v) ELSE IF v[i] # 0 THEN i - 1 ELSE LeadZ(v, i + 1)

Norm(s, e, v) ==
    LET z == LeadZ(v, 1) IN
    IF z >= Len(v) THEN Zero
    ELSE LET w == SubSeq(v, z + 1, Len(v)) IN
         IF Len(w) >= 7 THEN <<s, e + 1 - z, SubSeq(w, 1, 7)>>
         ELSE <<s, e + 1 - z, SubSeq(w \o Z7, 1, 7)>>

Neg(a) == <<-a[1], a[2], a[3]>>
Abs(a) == IF a[1] < 0 THEN <<1, a[2], a[3]>> ELSE a
Sgn(a) == a[1]
IsZero(a) == a[1] = 0

\* magnitude comparison of mantissas: -1, 0, 1
RECURSIVE CmpM(_, _, _)
CmpM(p, q, i) == IF i > 7 THEN 0
                 ELSE IF p[i] < q[i] THEN -1
                 ELSE IF p[i] > q[i] THEN 1 ELSE CmpM(p, q, i + 1)

CmpAbs(a, b) ==
    IF a[1] = 0 THEN (IF b[1] = 0 THEN 0 ELSE -1)
    ELSE IF b[1] = 0 THEN 1
    ELSE IF a[2] < b[2] THEN -1
    ELSE IF a[2] > b[2] THEN 1
    ELSE CmpM(a[3], b[3], 1)

Cmp(a, b) ==
    IF a[1] < b[1] THEN -1
    ELSE IF a[1] > b[1] THEN 1
    ELSE IF a[1] = 0 THEN 0
    ELSE a[1] * CmpAbs(a, b)

Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
Gt(a, b) == Cmp(a, b) > 0
Ge(a, b) == Cmp(a, b) >= 0
Max2(a, b) == IF Lt(a, b) THEN b ELSE a
Min2(a, b) == IF Lt(a, b) THEN a ELSE b

\* shift a 7-limb mantissa right by d limbs (keeping 8 limbs: one guard limb)
ShR(m, d) ==
    CASE d = 0 -> m \o <<0>>
      [] d = 1 -> <<0>> \o m
      [] d = 2 -> <<0,0>> \o SubSeq(m, 1, 6)
      [] d = 3 -> <<0,0,0>> \o SubSeq(m, 1, 5)
      [] d = 4 -> <<0,0,0,0>> \o SubSeq(m, 1, 4)
      [] d = 5 -> <<0,0,0,0,0>> \o SubSeq(m, 1, 3)
      [] d = 6 -> <<0,0,0,0,0,0>> \o SubSeq(m, 1, 2)
      [] d = 7 -> <<0,0,0,0,0,0,0>> \o SubSeq(m, 1, 1)
      [] OTHER -> <<0,0,0,0,0,0,0,0>>

\* a,b same sign s, |exponent of p| >= q
AddMag(s, p, q) ==
    LET a == p[3]
        b == ShR(q[3], p[2] - q[2])
        t8 == b[8]
        t7 == a[7] + b[7]
        t6 == a[6] + b[6] + (t7 \div B)
        t5 == a[5] + b[5] + (t6 \div B)
        t4 == a[4] + b[4] + (t5 \div B)
        t3 == a[3] + b[3] + (t4 \div B)
        t2 == a[2] + b[2] + (t3 \div B)
        t1 == a[1] + b[1] + (t2 \div B)
    IN  IF t1 >= B
        THEN <<s, p[2] + 1, <<1, t1 % B, t2 % B, t3 % B, t4 % B, t5 % B, t6 % B>>>>
        ELSE <<s, p[2], <<t1, t2 % B, t3 % B, t4 % B, t5 % B, t6 % B, t7 % B>>>>

\* |p| > |q|, result sign s
SubMag(s, p, q) ==
    LET a == p[3]
        b == ShR(q[3], p[2] - q[2])
        t8 == -b[8]
        t7 == a[7] - b[7] + (t8 \div B)
        t6 == a[6] - b[6] + (t7 \div B)
        t5 == a[5] - b[5] + (t6 \div B)
        t4 == a[4] - b[4] + (t5 \div B)
        t3 == a[3] - b[3] + (t4 \div B)
        t2 == a[2] - b[2] + (t3 \div B)
        t1 == a[1] - b[1] + (t2 \div B)
    IN  Norm(s, p[2] - 1, <<t1, t2 % B, t3 % B, t4 % B, t5 % B, t6 % B, t7 % B, t8 % B>>)

Add(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1]
         THEN IF a[2] >= b[2] THEN AddMag(a[1], a, b) ELSE AddMag(a[1], b, a)
         ELSE LET c == CmpAbs(a, b) IN
              IF c = 0 THEN Zero
              ELSE IF c > 0 THEN SubMag(a[1], a, b)
              ELSE SubMag(b[1], b, a)

Sub(a, b) == Add(a, Neg(b))

Mul(x, y) ==
    IF x[1] = 0 \/ y[1] = 0 THEN Zero
    ELSE
    LET a == x[3]
        b == y[3]
        a1 == a[1] a2 == a[2] a3 == a[3] a4 == a[4] a5 == a[5] a6 == a[6] a7 == a[7]
        b1 == b[1] b2 == b[2] b3 == b[3] b4 == b[4] b5 == b[5] b6 == b[6] b7 == b[7]
        c8 == a2*b7 + a3*b6 + a4*b5 + a5*b4 + a6*b3 + a7*b2
        c7 == a1*b7 + a2*b6 + a3*b5 + a4*b4 + a5*b3 + a6*b2 + a7*b1 + (c8 \div B)
        c6 == a1*b6 + a2*b5 + a3*b4 + a4*b3 + a5*b2 + a6*b1 + (c7 \div B)
        c5 == a1*b5 + a2*b4 + a3*b3 + a4*b2 + a5*b1 + (c6 \div B)
        c4 == a1*b4 + a2*b3 + a3*b2 + a4*b1 + (c5 \div B)
        c3 == a1*b3 + a2*b2 + a3*b1 + (c4 \div B)
        c2 == a1*b2 + a2*b1 + (c3 \div B)
        c1 == a1*b1 + (c2 \div B)
        c0 == c1 \div B
    IN  IF c0 = 0
        THEN <<x[1]*y[1], x[2] + y[2] - 1,
               <<c1 % B, c2 % B, c3 % B, c4 % B, c5 % B, c6 % B, c7 % B>>>>
        ELSE <<x[1]*y[1], x[2] + y[2],
               <<c0, c1 % B, c2 % B, c3 % B, c4 % B, c5 % B, c6 % B>>>>

\* multiply / divide by a small integer 0 < n < 200000
DivSmall(x, n) ==
    IF x[1] = 0 THEN Zero ELSE
    LET a == x[3]
        r1 == a[1] % n
        u2 == r1 * B + a[2]
        u3 == (u2 % n) * B + a[3]
        u4 == (u3 % n) * B + a[4]
        u5 == (u4 % n) * B + a[5]
        u6 == (u5 % n) * B + a[6]
        u7 == (u6 % n) * B + a[7]
        u8 == (u7 % n) * B
        u9 == (u8 % n) * B
    IN  Norm(x[1], x[2] - 1, <<a[1] \div n, u2 \div n, u3 \div n, u4 \div n,
                              u5 \div n, u6 \div n, u7 \div n, u8 \div n, u9 \div n>>)

\* exact conversion of a TLC integer (|i| < 2^31)
I(i) ==
    LET s == IF i < 0 THEN -1 ELSE 1
        n == IF i < 0 THEN -i ELSE i
    IN  IF n = 0 THEN Zero
        ELSE IF n < B THEN <<s, 1, <<n,0,0,0,0,0,0>>>>
        ELSE IF n < 100000000 THEN <<s, 2, <<n \div B, n % B,0,0,0,0,0>>>>
        ELSE <<s, 3, <<n \div 100000000, (n \div B) % B, n % B,0,0,0,0>>>>

One == I(1)
Two == I(2)
MulI(x, i) == Mul(x, I(i))

\* reciprocal by Newton iteration
InvGuess(a) ==      \* a mantissa; returns approximation of 1/(0.a1a2..), i.e. in (1, 10^4]
    LET t == IF a[1] >= 1000 THEN a[1]
             ELSE IF a[1] >= 100 THEN a[1]*10 + a[2] \div 1000
             ELSE IF a[1] >= 10 THEN a[1]*100 + a[2] \div 100
             ELSE a[1]*1000 + a[2] \div 10
        \* 0.a = t / 10^p
        q == 1000000000 \div t            \* 10^9 / t
    IN  IF a[1] >= 1000 THEN DivSmall(I(q), 100000)
        ELSE IF a[1] >= 100 THEN DivSmall(I(q), 10000)
        ELSE IF a[1] >= 10 THEN DivSmall(I(q), 1000)
        ELSE DivSmall(I(q), 100)

NewtonInv(d, x) == Mul(x, Sub(Two, Mul(d, x)))
Inv(y) ==
    LET d  == <<1, 0, y[3]>>
        x0 == InvGuess(y[3])
        x1 == NewtonInv(d, x0)
        x2 == NewtonInv(d, x1)
        x3 == NewtonInv(d, x2)
        x4 == NewtonInv(d, x3)
    IN  <<y[1], x4[2] - y[2], x4[3]>>

Div(x, y) == IF x[1] = 0 THEN Zero ELSE Mul(x, Inv(y))
\* n/d for TLC integers
Q(n, d) == IF d = 1 THEN I(n)
           ELSE IF d > 0 /\ d < 200000 THEN DivSmall(I(n), d) ELSE Div(I(n), I(d))

Sq(x) == Mul(x, x)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One
             ELSE IF n < 0 THEN Inv(Pow(x, -n))
             ELSE IF n = 1 THEN x
             ELSE IF n % 2 = 0 THEN Pow(Sq(x), n \div 2)
             ELSE Mul(x, Pow(Sq(x), n \div 2))

\* 10^n
TenPow(n) ==
    LET q == n \div 4      \* floor
        r == n % 4
    IN  <<1, q + 1, <<(CASE r = 0 -> 1 [] r = 1 -> 10 [] r = 2 -> 100 [] OTHER -> 1000),0,0,0,0,0,0>>>>

\* sqrt via Newton on 1/sqrt
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE ISqrtFrom(n, h)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtFrom(n, n)

RsqrtStep(d, x) == DivSmall(Mul(x, Sub(I(3), Mul(d, Sq(x)))), 2)
Sqrt(y) ==
    IF y[1] = 0 THEN Zero ELSE
    LET od == y[2] % 2 # 0
        \* d in [10^-4, 10^4) with even exponent removed
        d  == IF od THEN <<1, 1, y[3]>> ELSE <<1, 0, y[3]>>
        h  == IF od THEN (y[2] - 1) \div 2 ELSE y[2] \div 2
        r0 == IF od THEN ISqrt(y[3][1] * B + y[3][2]) \* ~ sqrt(d)*100, 100..10^4
                    ELSE ISqrt(y[3][1] * B + y[3][2]) \* ~ sqrt(d)*10^4
        x0 == IF od THEN Div(I(100), I(r0)) ELSE Div(I(10000), I(r0))
        x1 == RsqrtStep(d, x0)
        x2 == RsqrtStep(d, x1)
        x3 == RsqrtStep(d, x2)
        x4 == RsqrtStep(d, x3)
        r  == Mul(d, x4)
    IN  <<1, r[2] + h, r[3]>>

(* Constants (28 digits) *)
Pi   == <<1, 1, <<3, 1415, 9265, 3589, 7932, 3846, 2643>>>>
Ln2  == <<1, 0, <<6931, 4718, 559, 9453, 941, 7232, 1214>>>>
LnB  == <<1, 1, <<9, 2103, 4037, 1976, 1827, 3607, 1965>>>>
Half == <<1, 0, <<5000,0,0,0,0,0,0>>>>

\* integer part (towards 0) of a number with |x| < 10^8
Trunc(x) == IF x[1] = 0 \/ x[2] <= 0 THEN 0
            ELSE IF x[2] = 1 THEN x[1] * x[3][1]
            ELSE IF x[2] = 2 THEN x[1] * (x[3][1] * B + x[3][2])
            ELSE Assert(FALSE, <<"Trunc out of range", x>>)

RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(x, n, term, acc) ==
    IF term[1] = 0 \/ term[2] < acc[2] - 7 THEN acc
    ELSE LET t2 == DivSmall(Mul(term, x), n)
         IN  ExpTaylor(x, n + 1, t2, Add(acc, t2))

Exp(x) ==
    IF x[1] = 0 THEN One ELSE
    LET n == Trunc(Div(x, LnB))
        r == Sub(x, MulI(LnB, n))               \* |r| < LnB ~ 9.21
        y == DivSmall(r, 64)                    \* |y| < 0.15
        t == ExpTaylor(y, 2, y, Add(One, y))
        p == Sq(Sq(Sq(Sq(Sq(Sq(t))))))
    IN  <<p[1], p[2] + n, p[3]>>

\* 2*atanh(z)
RECURSIVE AtanhSum(_, _, _, _)
AtanhSum(z2, n, pw, acc) ==
    LET t == DivSmall(pw, n) IN
    IF t[1] = 0 \/ t[2] < acc[2] - 7 THEN acc
    ELSE AtanhSum(z2, n + 2, Mul(pw, z2), Add(acc, t))

RECURSIVE LnScale(_, _)
\* returns <<k, y>> with y = m * 2^k in [0.70, 1.41)
LnScale(y, k) == IF Lt(y, <<1,0,<<7071,0,0,0,0,0,0>>>>) THEN LnScale(Add(y, y), k + 1) ELSE <<k, y>>

Ln(x) ==
    LET sc == LnScale(<<1, 0, x[3]>>, 0)
        y  == sc[2]
        z  == Div(Sub(y, One), Add(y, One))
        at == IF z[1] = 0 THEN Zero ELSE AtanhSum(Sq(z), 3, Mul(z, Sq(z)), z)
    IN  Add(Sub(MulI(LnB, x[2]), MulI(Ln2, sc[1])), Add(at, at))

\* |a-b| <= rel*max(|a|,|b|) + abs
Close(a, b, rel, abs) ==
    Le(Abs(Sub(a, b)), Add(Mul(rel, Max2(Abs(a), Abs(b))), abs))

\* sums
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN Zero ELSE Add(s[i], SumSeq(s, i + 1))
Sum(s) == SumSeq(s, 1)

\* a double as decoded from the trace ([s |-> , e |-> , m |-> ]) is already <<s,e,m>>
=============================================================================
