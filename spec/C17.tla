-------------------------------- MODULE C17 --------------------------------
(* Plane-plane free energy, pressure and their limits.                      *)
EXTENDS Lifshitz
CONSTANT Deep
VARIABLES i, v

Bd == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Gold_plasma"), Nm("Polystyrene"), Nm("Silicon"), Nm("MercurySmith"), Nm("SiC"),
        Nm("Silver"), Nm("Vacuum"), Nm("Gold_magnetic"), Nm("Ptfe"), Nm("Artificial"),
        Usr(<<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, <<Dec(5, 0), Dec(6, 14)>>),
        Usr(<<<<Dec(15, 14), Dec(0, 0), Dec(0, 0)>>>>, <<Dec(2, 0), Dec(9, 14)>>),
        Usr(<<>>, <<Dec(4, 0), Dec(5, 14)>>)>>
Md == <<Nm("Vacuum"), Nm("Vacuum"), Nm("Water"), Nm("Ethanol"), Nm("modifiedWater"),
        Usr(<<<<Dec(6, 14), Dec(5, 14), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>), Usr(<<>>, <<Dec(2, 0), Dec(7, 14)>>)>>
\* T L >= 1.5 keeps the number of terms below ten
LL(n) == IntIn(n, 1, 3, 40)
TT(n, l) == IF Rnd(n, 9, 12) = 0 THEN (4 \div l) + 1 ELSE (15 \div l) + 1 + IntIn(n, 2, 0, 30)
Fam(n) == Cyc(n, <<"free", "press", "terms", "ht", "free", "fres", "press", "terms", "t0", "fres", "intg">>)
Scn(n) ==
    LET fam == Fam(n)
        l == LL(n)
        L == Dec(l, -1)
        T == Dec(TT(n, l), -1) 
        \* every family in both variants, with and without shielding
        q4 == ((n - 1) \div 11) % 4
        sh == q4 \in {1, 3}
        mod == IF q4 \in {2, 3} THEN "raw_PFA" ELSE "PFA"
        base == [fam |-> fam, m1 |-> <<Pick(n, 5, Bd)>>, m2 |-> <<Pick(n, 6, Bd)>>, m3 |-> Pick(n, 7, Md), L |-> L, T |-> T, sh |-> sh, mod |-> mod,
                 fs |-> <<IF mod = "raw_PFA" /\ Rnd(n, 33, 2) = 0 THEN Dec(0, 0) ELSE Dec(1, -10)>> \o [j \in 1..2 |-> Dec(IntIn(n, 20 + j, 1, 60), -1)], tw |-> Rnd(n, 8, 2) = 0,
                 kp |-> Dec(IntIn(n, 30, 0, 90), -1), kn |-> Dec(IntIn(n, 31, 1, 90), Pick(n, 32, <<-1, -3>>))]
        st(f, a, e) == [op |-> "pfa", fn |-> f, args |-> a, twice |-> e.tw]
    IN  base @@ [steps |-> CASE fam = "free" -> <<st("planeplaneFreeEnergy", <<T, L>>, base)>>
                             [] fam = "press" -> <<st("planeplanePressure", <<T, L>>, base)>>
                             [] fam = "terms" -> <<[op |-> "pfa", fn |-> "get_f_matsubaras", args |-> <<T, L, base.fs>>, twice |-> base.tw]>>
                             [] fam = "ht" -> <<st("planeplaneFreeEnergyHT", <<L>>, base)>>
                                    \o (IF mod = "PFA" THEN <<st("planeplaneFreeEnergy", <<"inf", L>>, base)>> ELSE <<>>)
                             [] fam = "t0" -> <<st("planeplaneFreeEnergy", <<Dec(0, 0), L>>, base)>>
                             [] fam = "intg" -> LET it(f) == [op |-> "pfa", fn |-> f, nosh |-> TRUE, args |-> <<base.kp, base.kn, L>>] IN
                                    <<it("roundTrips"), it("pressureRoundTrips")>>
                                    \o (IF mod = "PFA" THEN <<it("roundTrip"), it("pressureRoundTrip")>> ELSE <<>>)
                             [] OTHER -> <<[op |-> "fresnel", k |-> base.kn, m2 |-> <<base.m3>>]>>]

\* zero-frequency terms are taken by the code at a tiny wavenumber, where slowly relaxing responses
\* differ from their limit by a few 1e-5; the quadrature of the code is accurate to about 1e-8
R0 == Mul(I(3), Tol(4))
A0 == Mul(I(2), Tol(6))
Verdict(t) ==
    LET r == t.res
        m1 == MatX(t.m1[1])  m2 == MatX(t.m2[1])  md == MatX(t.m3)
        L == D(t.L)  T == D(t.T)
        one(x, w, rel, abs) == Len(x.v) = 1 /\ Close(x.v[1], w, rel, abs)
        bad == \E q \in 1..Len(r) : r[q].st # "ok"
    IN  IF bad THEN "not-evaluated"
        ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
        ELSE CASE t.fam = "free" -> IF one(r[1], LifSum(m1, m2, md, T, L, t.sh, "F"), IF t.sh THEN Tol(5) ELSE R0, IF t.sh THEN Tol(7) ELSE Mul(A0, Add(One, T))) THEN "ok" ELSE "free-energy"
               [] t.fam = "press" -> IF one(r[1], LifSum(m1, m2, md, T, L, t.sh, "P"), IF t.sh THEN Tol(5) ELSE R0, IF t.sh THEN Tol(7) ELSE Mul(A0, Add(One, T))) THEN "ok" ELSE "pressure"
               [] t.fam = "ht" -> LET w == LifHT(m1, m2, md, L, t.sh, "F") IN
                                  IF \A q \in 1..Len(r) : one(r[q], w, R0, A0) THEN "ok" ELSE "high-temperature-limit"
               [] t.fam = "t0" -> IF one(r[1], LifT0(m1, m2, md, L, "F"), Mul(I(5), Tol(4)), A0) THEN "ok" ELSE "zero-temperature-limit"
               [] t.fam = "terms" ->
                    LET w == TLCEval([q \in 1..3 |-> Lif(m1, m2, md, IF q = 1 THEN KZero ELSE D(t.fs[q]), L, "F")])
                        ref(p, q) == IF q > 1 THEN w[q][p] ELSE IF t.sh THEN Zero ELSE Mul(Half, w[1][p])
                        \* the simplified variant returns the unweighted terms, both polarisations added
                        raw(q) == IF q = 1 /\ t.sh THEN Zero ELSE Both(w[q])
                    IN  IF t.mod = "raw_PFA"
                        THEN (IF r[1].sh = <<3>> /\ \A q \in 1..3 : Close(r[1].v[q], raw(q), IF q = 1 THEN R0 ELSE Tol(6), IF q = 1 THEN A0 ELSE Tol(7))
                              THEN "ok" ELSE "matsubara-term")
                        ELSE IF r[1].sh # <<2, 3>> THEN "shape"
                        ELSE IF \E p \in 1..2, q \in 1..3 : ~Close(r[1].v[(p - 1) * 3 + q], ref(p, q), IF q = 1 THEN R0 ELSE Tol(6), IF q = 1 THEN A0 ELSE Tol(7))
                        THEN "matsubara-term" ELSE "ok"
               [] t.fam = "intg" ->       \* the integrands themselves, resolved into polarisations and added
                    LET k == D(t.kn)
                        em == EvalMat(md, k)
                        kap == Sqrt(Add(Sq(D(t.kp)), Mul(Mul(em.eps, em.mu), Sq(k))))
                        f == Fres(EvalMat(m1, k), em, k, kap)
                        h == Fres(EvalMat(m2, k), em, k, kap)
                        x == TLCEval([p \in 1..2 |-> Mul(Mul(f[p], h[p]), Exp(Neg(Mul(MulI(kap, 2), L))))])
                        e == TLCEval([p \in 1..2 |-> Ln1m(x[p])])
                        s == TLCEval([p \in 1..2 |-> Neg(Div(Mul(MulI(kap, 2), x[p]), Sub(One, x[p])))])
                        two(q, w) == Len(r[q].v) = 2 /\ \A p \in 1..2 : Close(r[q].v[p], w[p], Tol(8), Tol(13))
                        sum(q, w) == Len(r[q].v) = 1 /\ Close(r[q].v[1], Add(w[1], w[2]), Tol(8), Tol(13))
                    IN  IF ~two(1, e) \/ ~two(2, s) \/ (Len(r) = 4 /\ (~sum(3, e) \/ ~sum(4, s))) THEN "integrand" ELSE "ok"
               [] OTHER ->
                    LET k == D(t.kn)
                        em == EvalMat(md, k)
                        kap == Sqrt(Add(Sq(D(t.kp)), Mul(Mul(em.eps, em.mu), Sq(k))))
                        f == Fres(EvalMat(m1, k), em, k, kap)
                    IN  IF Close(r[1].v[1], f[1], Tol(9), Tol(12)) /\ Close(r[1].v[2], f[2], Tol(9), Tol(12)) THEN "ok" ELSE "reflection"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
