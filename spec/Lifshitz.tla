------------------------------ MODULE Lifshitz ------------------------------
(***************************************************************************)
(* Lifshitz theory of two half-spaces with a medium between them, at       *)
(* imaginary wavenumbers.  Integrals over the wavevector along the plates  *)
(* use the double-exponential rule of QuadTable.                           *)
(***************************************************************************)
EXTENDS Base, QuadTable

DE == TLCEval(DETab)
GL == TLCEval(GLTab)

\* Fresnel amplitudes <<TE, TM>> of a plate p below a medium em; kap is the decay constant in the medium
Fres(p, em, k, kap) ==
    IF p.pec THEN <<Neg(One), One>>
    ELSE LET q == Sqrt(Add(Sq(kap), Mul(Sub(Mul(p.eps, p.mu), Mul(em.eps, em.mu)), Sq(k))))
             rt(a, b) == Div(Sub(Mul(a, kap), Mul(b, q)), Add(Mul(a, kap), Mul(b, q)))
         IN  <<rt(p.mu, em.mu), rt(p.eps, em.eps)>>

\* ln(1 - x)
Ln1m(x) ==
    IF IsZero(x) THEN Zero
    ELSE IF Lt(Abs(x), Q(1, 100))
    THEN LET t(n) == DivSmall(Pow(x, n), n)
         IN  Neg(Add(x, Add(t(2), Add(t(3), Add(t(4), Add(t(5), Add(t(6), t(7))))))))
    ELSE Ln(Sub(One, x))

\* contribution of the imaginary wavenumber k per area: "F" the round-trip logarithm, "P" minus its distance derivative
Lif(r1, r2, rm, k, L, what) ==
    LET e1 == EvalMat(r1, k)  e2 == EvalMat(r2, k)  em == EvalMat(rm, k)
        k0 == Mul(k, Sqrt(Mul(em.eps, em.mu)))
        il == Inv(MulI(L, 2))
        node(q) == LET kap == Add(k0, Mul(DE[q][1], il))
                       f1 == Fres(e1, em, k, kap)
                       f2 == Fres(e2, em, k, kap)
                       ex == Exp(Neg(Mul(MulI(kap, 2), L)))
                       x(p) == Mul(Mul(f1[p], f2[p]), ex)
                       g(y) == IF what = "F" THEN Ln1m(y) ELSE Neg(Div(Mul(MulI(kap, 2), y), Sub(One, y)))
                       w == Mul(Mul(kap, DE[q][2]), il)
                   IN  <<Mul(w, g(x(1))), Mul(w, g(x(2)))>>
        tb == TLCEval([q \in 1..Len(DE) |-> TLCEval(node(q))])
        tot(p) == Div(Sum(TLCEval([q \in 1..Len(DE) |-> tb[q][p]])), MulI(Pi, 2))
    IN  <<tot(1), tot(2)>>
Both(x) == Add(x[1], x[2])

\* truncation below 1e-11 of the leading term: exp(-2 T L n) with T L n > 14
NTerms(T, L) == Trunc(Div(I(14), Mul(T, L))) + 1
LifZero(r1, r2, rm, L, sh, what) == IF sh THEN Zero ELSE Mul(Half, Both(Lif(r1, r2, rm, KZero, L, what)))
LifSum(r1, r2, rm, T, L, sh, what) ==
    Mul(T, Add(LifZero(r1, r2, rm, L, sh, what),
               Sum(TLCEval([n \in 1..NTerms(T, L) |-> TLCEval(Both(Lif(r1, r2, rm, MulI(T, n), L, what)))]))))
LifHT(r1, r2, rm, L, sh, what) == LifZero(r1, r2, rm, L, sh, what)
LifT0(r1, r2, rm, L, what) ==
    LET il == Inv(MulI(L, 2))
    IN  Mul(il, Sum(TLCEval([q \in 1..Len(DE) |-> TLCEval(Mul(DE[q][2], Both(Lif(r1, r2, rm, Mul(DE[q][1], il), L, what))))])))
=============================================================================
