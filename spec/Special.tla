------------------------------ MODULE Special ------------------------------
(***************************************************************************)
(* Special functions of the Casimir sphere-sphere problem, defined from    *)
(* first principles on top of Num: factorials, modified spherical Bessel   *)
(* functions, Wigner 3j symbols / Gaunt coefficients, Legendre functions.  *)
(* None of the definitions follows the algorithm used by the              *)
(* implementation (power series + downward recursion instead of continued  *)
(* fractions and Wronskians, Racah's formula instead of Xu's recursion).   *)
(***************************************************************************)
EXTENDS Num, FactTable

Fact(n) == IF n <= 260 THEN FactTab[n + 1] ELSE Assert(FALSE, <<"Fact", n>>)

\* (2l+1)!! = (2l+1)!/(2^l l!)
RECURSIVE DFact(_)
DFact(l) == IF l > 129 THEN MulI(DFact(l - 1), 2*l + 1) ELSE Div(Fact(2*l + 1), Mul(Pow(Two, l), Fact(l)))

SgnPow(n) == IF n % 2 = 0 THEN 1 ELSE -1    \* (-1)^n, any integer n
SMul(s, x) == IF s = 1 THEN x ELSE IF s = -1 THEN Neg(x) ELSE Zero

(***************************************************************************)
(* k_l(x) = sqrt(pi/2x) K_{l+1/2}(x), l = 0..L, as sequence (index l+1).   *)
(***************************************************************************)
RECURSIVE KUp(_, _, _, _)
KUp(ix, L, l, s) ==
    IF l > L THEN s
    ELSE KUp(ix, L, l + 1, Append(s, Add(s[l - 1], Mul(MulI(ix, 2*l - 1), s[l]))))

KSeq(x, L) ==
    LET ix == Inv(x)
        k0 == Mul(Mul(Mul(Pi, Half), Exp(Neg(x))), ix)
        k1 == Mul(k0, Add(One, ix))
    IN  IF L = 0 THEN <<k0>> ELSE KUp(ix, L, 2, <<k0, k1>>)

(***************************************************************************)
(* i_l(x) = sqrt(pi/2x) I_{l+1/2}(x): power series for the two highest     *)
(* orders, downward recursion for the others.                              *)
(***************************************************************************)
RECURSIVE ISeries(_, _, _, _, _)
ISeries(h, l, j, term, acc) ==              \* h = x^2/2
    IF term[1] = 0 \/ term[2] < acc[2] - 7 THEN acc
    ELSE LET t == DivSmall(DivSmall(Mul(term, h), j), 2*l + 2*j + 1)
         IN  ISeries(h, l, j + 1, t, Add(acc, t))

IOne(x, l) == LET h == DivSmall(Sq(x), 2)
              IN  Mul(Div(Pow(x, l), DFact(l)), ISeries(h, l, 1, One, One))

RECURSIVE IDown(_, _, _)
IDown(ix, l, s) ==                          \* s[1] = i_l, s[2] = i_{l+1}
    IF l = 0 THEN s
    ELSE IDown(ix, l - 1, <<Add(s[2], Mul(MulI(ix, 2*l + 1), s[1]))>> \o s)

\* for large x the terminating asymptotic form
\*   i_l = ( e^x sum_k (-1)^k c_k/(2x)^k - (-1)^l e^-x sum_k c_k/(2x)^k ) / (2x),
\*   c_k = (l+k)!/(k! (l-k)!)
RECURSIVE IFin(_, _, _, _, _, _)
IFin(h, l, k, term, sg, acc) ==             \* h = 1/(2x); term = c_k h^k
    IF k = l THEN acc
    ELSE LET t == DivSmall(Mul(MulI(term, (l + k + 1) * (l - k)), h), k + 1)
         IN  IFin(h, l, k + 1, t, sg, Add(acc, SMul(IF sg = 1 THEN 1 ELSE SgnPow(k + 1), t)))
ILarge(x, l) ==
    LET h == Inv(Add(x, x))
    IN  Mul(h, Sub(Mul(Exp(x), IFin(h, l, 0, One, -1, One)),
                   SMul(SgnPow(l), Mul(Exp(Neg(x)), IFin(h, l, 0, One, 1, One)))))
IAny(x, l) == IF Gt(x, I(30)) /\ Gt(MulI(x, 10), I(l * l)) THEN ILarge(x, l) ELSE IOne(x, l)

ISeq(x, L) ==
    LET ix == Inv(x)
    IN  IF L = 0 THEN <<IAny(x, 0)>>
        ELSE IDown(ix, L - 1, <<IAny(x, L - 1), IAny(x, L)>>)

(***************************************************************************)
(* Wigner 3j symbols (l1 l2 l3; m -m 0) and (l1 l2 l3; 0 0 0), and the     *)
(* Gaunt integral  \int Y_l1^m Y_l2^-m Y_l3^0 dOmega.                      *)
(***************************************************************************)
IFact(n) == InvFactTab[n + 1]

Delta(l1, l2, l3) ==
    Mul(Mul(Mul(Fact(l1 + l2 - l3), Fact(l1 - l2 + l3)), Fact(l2 + l3 - l1)),
        InvFactTab[l1 + l2 + l3 + 2])

RECURSIVE RacahSum(_, _, _, _, _, _, _)
RacahSum(l1, l2, l3, m, t, tmax, acc) ==
    IF t > tmax THEN acc
    ELSE LET d == Mul(Mul(Mul(IFact(t), IFact(l3 - l2 + t + m)),
                          Mul(IFact(l3 - l1 + t + m), IFact(l1 + l2 - l3 - t))),
                      Mul(IFact(l1 - t - m), IFact(l2 - t - m)))
         IN  RacahSum(l1, l2, l3, m, t + 1, tmax, Add(acc, SMul(SgnPow(t), d)))

Racah(l1, l2, l3, m) ==
    LET p == l1 + l2 - l3  q == l1 - m  r == l2 - m
        tmax == IF p <= q /\ p <= r THEN p ELSE IF q <= r THEN q ELSE r
        u == l2 - l3 - m  v == l1 - l3 - m
        w == IF u > v THEN u ELSE v
    IN  RacahSum(l1, l2, l3, m, IF w > 0 THEN w ELSE 0, tmax, Zero)

\* (l1 l2 l3; 0 0 0) without the factor sqrt(Delta)
W000(l1, l2, l3) ==
    LET g == (l1 + l2 + l3) \div 2
    IN  SMul(SgnPow(g), Mul(Mul(Fact(g), IFact(g - l1)), Mul(IFact(g - l2), IFact(g - l3))))

\* \int Y_l1^m Y_l2^-m Y_l3^0 dOmega, 0 <= m
Gaunt(l1, l2, l3, m) ==
    IF m > l1 \/ m > l2 \/ (l1 + l2 + l3) % 2 = 1 THEN Zero
    ELSE LET rt == Sqrt(Mul(Div(I((2*l1 + 1)*(2*l2 + 1)*(2*l3 + 1)), MulI(Pi, 4)),
                            Mul(Mul(Fact(l1 + m), Fact(l1 - m)),
                                Mul(Fact(l2 + m), Fact(l2 - m)))))
         IN  SMul(SgnPow(l1 - l2),
                  Mul(Mul(rt, Mul(Delta(l1, l2, l3), Fact(l3))),
                      Mul(W000(l1, l2, l3), Racah(l1, l2, l3, m))))

(***************************************************************************)
(* Normalised associated Legendre functions \bar P_l^m(x): Y_l^m(theta,0). *)
(* sx = sqrt(1-x^2).  Used for the linearisation identity of the Gaunt     *)
(* coefficients at large l.                                                *)
(***************************************************************************)
RECURSIVE PmmN(_, _, _)
PmmN(j, m, acc) ==      \* prod_{j=1..m} (2j+1)/(2j)
    IF j > m THEN acc ELSE PmmN(j + 1, m, DivSmall(MulI(acc, 2*j + 1), 2*j))

RECURSIVE PUp(_, _, _, _, _, _)
PUp(x, m, L, l, p2, p1) ==      \* p1 = P_{l-1}, p2 = P_{l-2}; returns P_L
    IF l > L THEN p1
    ELSE LET a == Sqrt(Q((2*l - 1)*(2*l + 1), (l - m)*(l + m)))
             b == Sqrt(Div(I((2*l + 1)*(l - 1 - m)*(l - 1 + m)), I((2*l - 3)*(l - m)*(l + m))))
             p == Sub(Mul(Mul(a, x), p1), Mul(b, p2))
         IN  PUp(x, m, L, l + 1, p1, p)

PBar(l, m, x, sx) ==
    LET pmm == SMul(SgnPow(m), Mul(Pow(sx, m), Sqrt(Div(PmmN(1, m, One), MulI(Pi, 4)))))
    IN  IF l = m THEN pmm
        ELSE PUp(x, m, l, m + 1, Zero, pmm)

=============================================================================
