------------------------------ MODULE Physics ------------------------------
(***************************************************************************)
(* Specification of what one evaluation of the round-trip operator means:  *)
(* material response, Mie scattering of solid / layered spheres and of the *)
(* spherical cavity, translation of vector multipoles along z, round-trip  *)
(* matrix, ln det(1-M), zero frequency limit.  Everything is a function of *)
(* construction parameters and arguments only - that is the point.         *)
(***************************************************************************)
EXTENDS Special, MaterialTable

ONorm == <<1, 4, <<299, 8000, 0, 0, 0, 0, 0>>>>      \* 2.998e14 = c / 1 micron

(* --- materials ---------------------------------------------------------- *)
\* MatDef(name) = [kind |-> "pec"|"lorentz"|"smith", e |-> seq of <<wP,wR,g>>
\*                 (Num, in 1/s), b |-> <<>> or <<mu0, wM>>]
\* a material is either a name of the table or such a record (user defined)
MatRec(mt) == IF mt \in MatNames THEN MatDef(mt) ELSE Assert(FALSE, <<"unknown material", mt>>)

RECURSIVE EpsSum(_, _, _)
EpsSum(e, k, i) ==
    IF i > Len(e) THEN One
    ELSE LET wp == Div(e[i][1], ONorm)
             wr == Div(e[i][2], ONorm)
             g  == Div(e[i][3], ONorm)
         IN  Add(Div(Sq(wp), Add(Add(Sq(wr), Sq(k)), Mul(g, k))), EpsSum(e, k, i + 1))

EpsOf(rec, k) ==
    IF rec.kind = "smith"
    THEN LET wp == Div(rec.e[1][1], ONorm)
             g  == Div(rec.e[1][3], ONorm)
             c  == Sub(One, Mul(Q(49, 100), Div(g, Add(k, g))))
         IN  Add(One, Mul(Div(Sq(wp), Add(Sq(k), Mul(g, k))), c))
    ELSE EpsSum(rec.e, k, 1)

MuOf(rec, k) ==
    IF rec.b = <<>> THEN One
    ELSE Add(One, Div(Sub(rec.b[1], One), Add(One, Div(k, Div(rec.b[2], ONorm)))))

IsPec(rec) == rec.kind = "pec"
IsDielectric(rec) == \A i \in 1..Len(rec.e) : IsZero(rec.e[i][1]) \/ ~IsZero(rec.e[i][2])
SigmaFinite(rec) ==
    \A i \in 1..Len(rec.e) : IsZero(rec.e[i][1]) \/ ~IsZero(rec.e[i][2]) \/ ~IsZero(rec.e[i][3])

(* --- Mie scattering: radial functions u = x i_l(x), v = x k_l(x) --------- *)
\* Bessel table at x for orders 0..L together with the logarithmic-derivative
\* numerators  du = x u'(x)/x = x i_{l-1} - l i_l ,  dv = -x k_{l-1} - l k_l
RadTab(x, L) == [x |-> x, i |-> TLCEval(ISeq(x, L)), k |-> TLCEval(KSeq(x, L))]
RU(t, l)  == t.i[l + 1]
RV(t, l)  == t.k[l + 1]
RDU(t, l) == Sub(Mul(t.x, t.i[l]), MulI(t.i[l + 1], l))
RDV(t, l) == Neg(Add(Mul(t.x, t.k[l]), MulI(t.k[l + 1], l)))

\* boundary datum at the outer surface of the innermost region, expressed for
\* the material outside as the pair <<P, S>> meaning  r f'/f = P/S
\* (P/S = 1/0 for a perfect conductor TE: f = 0;  0/1 for TM: f' = 0).
\* weight w is mu (TE) or eps (TM).
Layer0(t, l, win, wout) == <<Mul(RDU(t, l), wout), Mul(RU(t, l), win)>>
\* amplitude ratio of the v-solution inside a layer given boundary data
VAmp(bd, t, l) ==
    Neg(Div(Sub(Mul(bd[1], RU(t, l)), Mul(bd[2], RDU(t, l))),
            Sub(Mul(bd[1], RV(t, l)), Mul(bd[2], RDV(t, l)))))
\* boundary data for the next material, after propagating with amplitude c
NextBd(c, t, l, win, wout) ==
    <<Mul(Add(RDU(t, l), Mul(c, RDV(t, l))), wout),
      Mul(Add(RU(t, l), Mul(c, RV(t, l))), win)>>

\* layers: sequence of [w-TE, w-TM, tin (table of layer material at its inner
\* radius), tout (at outer radius)]; the last element is the surrounding medium
\* evaluated at the outermost radius.
RECURSIVE LayerWalk(_, _, _, _, _, _)
LayerWalk(mats, radii, tabs, l, pol, j) ==
    \* boundary datum at radius j seen from material j+1
    LET w(q) == IF pol = "TE" THEN mats[q].mu ELSE mats[q].eps IN
    IF j = 1
    THEN IF mats[1].pec THEN (IF pol = "TE" THEN <<One, Zero>> ELSE <<Zero, One>>)
         ELSE Layer0(tabs[1].out, l, w(1), w(2))
    ELSE LET bd == LayerWalk(mats, radii, tabs, l, pol, j - 1)
             c  == VAmp(bd, tabs[j].in, l)
         IN  NextBd(c, tabs[j].out, l, w(j), w(j + 1))

\* mats: sequence of evaluated materials [pec, eps, mu] from core to medium,
\* radii: sequence (Len(mats)-1).
EvalMat(rec, k) == IF IsPec(rec) THEN [pec |-> TRUE, eps |-> One, mu |-> One]
                   ELSE [pec |-> FALSE, eps |-> TLCEval(EpsOf(rec, k)), mu |-> TLCEval(MuOf(rec, k))]

MieTabs(mats, radii, k, L) ==
    [j \in 1..Len(mats) |->
        IF mats[j].pec THEN [in |-> 0, out |-> 0]
        ELSE LET n == Sqrt(Mul(mats[j].eps, mats[j].mu)) IN
             [in  |-> IF j > 1 THEN RadTab(Mul(Mul(n, k), radii[j - 1]), L) ELSE 0,
              out |-> IF j <= Len(radii) THEN RadTab(Mul(Mul(n, k), radii[j]), L) ELSE 0]]

\* external Mie coefficient in the convention of the code base:
\*   (-1)^l (pi/2) * (-T),  field outside = u + T v
MieExt(mats, radii, tabs, l, pol) ==
    LET bd == LayerWalk(mats, radii, tabs, l, pol, Len(radii))
        t  == tabs[Len(mats)].in
    IN  SMul(SgnPow(l), Mul(Mul(Pi, Half), Neg(VAmp(bd, t, l))))

MieExtSeq(recs, radii, k, L, pol) ==
    LET mats == TLCEval([j \in 1..Len(recs) |-> EvalMat(recs[j], k)])
        tabs == TLCEval(MieTabs(mats, radii, k, L))
    IN  TLCEval([l \in 1..L |-> MieExt(mats, radii, tabs, l, pol)])

\* internal (cavity) coefficient: medium inside radius r, wall outside;
\* field inside = v + R u, convention (-1)^l (2/pi) * (-R)
MieIntSeq(med, wall, r, k, L, pol) ==
    LET mi == EvalMat(med, k)
        mo == EvalMat(wall, k)
        ti == TLCEval(RadTab(Mul(Mul(Sqrt(Mul(mi.eps, mi.mu)), k), r), L))
        to == IF mo.pec THEN 0 ELSE TLCEval(RadTab(Mul(Mul(Sqrt(Mul(mo.eps, mo.mu)), k), r), L))
        w(q) == IF pol = "TE" THEN q.mu ELSE q.eps
        R(l) == LET bd == IF mo.pec THEN (IF pol = "TE" THEN <<One, Zero>> ELSE <<Zero, One>>)
                          ELSE <<Mul(RDV(to, l), w(mi)), Mul(RV(to, l), w(mo))>>
                IN  Neg(Div(Sub(Mul(bd[1], RV(ti, l)), Mul(bd[2], RDV(ti, l))),
                            Sub(Mul(bd[1], RU(ti, l)), Mul(bd[2], RDU(ti, l)))))
    IN  TLCEval([l \in 1..L |-> SMul(SgnPow(l), Mul(Div(Two, Pi), Neg(R(l))))])

(* --- translation along z ------------------------------------------------- *)
RECURSIVE TrSum(_, _, _, _, _, _, _, _)
\* Sum over l'' = |l1-l2|, step 2: weight(l'') * gaunt * bessel * sqrt(2l''+1)
TrSum(l1, l2, m, bes, ext, which, lpp, acc) ==
    IF lpp > l1 + l2 THEN acc
    ELSE LET g   == Gaunt(l1, l2, lpp, m)
             sg  == IF ext THEN -1 ELSE SgnPow(lpp)
             w   == IF which = "EE" THEN I(l1*(l1+1) + l2*(l2+1) - lpp*(lpp+1)) ELSE One
             t   == SMul(sg, Mul(Mul(w, g), Mul(Sqrt(I(2*lpp + 1)), bes[lpp + 1])))
         IN  TrSum(l1, l2, m, bes, ext, which, lpp + 2, Add(acc, t))

Lo(l1, l2) == IF l1 > l2 THEN l1 - l2 ELSE l2 - l1

\* bes: k_l(x) (exterior) or i_l(x) (interior) for orders 0..l1+l2 at x = n k L
TrPre(l1, l2, m, ext) ==
    LET p == Sqrt(Div(Pi, I(l1*(l1+1)*l2*(l2+1))))
        q == IF ext THEN Mul(p, Div(Two, Pi)) ELSE p
    IN  SMul(SgnPow(m), q)

VEEab(l1, l2, m, bes, ext) == Mul(TrPre(l1, l2, m, ext), TrSum(l1, l2, m, bes, ext, "EE", Lo(l1, l2), Zero))
VEMab(l1, l2, m, bes, ext, x) ==
    IF m = 0 THEN Zero
    ELSE Mul(MulI(Mul(TrPre(l1, l2, m, ext), x), 2*m),
             TrSum(l1, l2, m, bes, ext, "EM", Lo(l1, l2), Zero))
\* the opposite direction differs by the parity of l'' (= parity of l1+l2)
VEEba(l1, l2, vee) == SMul(SgnPow(l1 + l2), vee)
VEMba(l1, l2, vem) == SMul(-SgnPow(l1 + l2), vem)

(* --- round trip ---------------------------------------------------------- *)
\* g: [r1, r2 : seq of radii, L, m1, m2 : seq of material records (core..shell),
\*     md : record, lmax, lss]    exterior iff L > R1 + R2
Outer(r) == r[Len(r)]
IsExt(g) == Gt(g.L, Add(Outer(g.r1), Outer(g.r2)))
NMed(g, k) == Sqrt(Mul(EpsOf(g.md, k), MuOf(g.md, k)))

MieA(g, k, pol) == MieExtSeq(Append(g.m1, g.md), g.r1, k, g.lmax, pol)
MieB(g, k, pol) == IF IsExt(g) THEN MieExtSeq(Append(g.m2, g.md), g.r2, k, g.lss, pol)
                   ELSE MieIntSeq(g.md, g.m2[1], g.r2[1], k, g.lss, pol)

Scatter(g, k) == [aTE |-> MieA(g, k, "TE"), aTM |-> MieA(g, k, "TM"),
                  bTE |-> MieB(g, k, "TE"), bTM |-> MieB(g, k, "TM"),
                  x |-> Mul(Mul(NMed(g, k), k), g.L),
                  bes |-> LET x == TLCEval(Mul(Mul(NMed(g, k), k), g.L)) IN
                          IF IsExt(g) THEN TLCEval(KSeq(x, g.lmax + g.lss))
                          ELSE TLCEval(ISeq(x, g.lmax + g.lss))]

\* matrix (2n x 2n) of the m-subspace as sequence of rows; n = lmax-lmin+1
RECURSIVE LssSum(_, _, _, _, _, _, _)
LssSum(V, W, b1, b2, i, j, q) ==
    \* sum over lss of V1[i,l] b1[l] W1[j,l] + V2[i,l] b2[l] W2[j,l]
    IF q > Len(b1) THEN Zero
    ELSE Add(Add(Mul(Mul(V[1][i][q], b1[q]), W[1][j][q]),
                 Mul(Mul(V[2][i][q], b2[q]), W[2][j][q])),
             LssSum(V, W, b1, b2, i, j, q + 1))

RoundTripSc(g, sc, m) ==
    LET ext  == IsExt(g)
        lmin == IF m > 1 THEN m ELSE 1
        n    == g.lmax - lmin + 1
        ns   == g.lss - lmin + 1
        V0   == TLCEval([i \in 1..n |-> TLCEval([j \in 1..ns |-> VEEab(i + lmin - 1, j + lmin - 1, m, sc.bes, ext)])])
        V2   == TLCEval([i \in 1..n |-> TLCEval([j \in 1..ns |-> VEMab(i + lmin - 1, j + lmin - 1, m, sc.bes, ext, sc.x)])])
        V1   == TLCEval([i \in 1..n |-> TLCEval([j \in 1..ns |-> VEEba(i, j, V0[i][j])])])
        V3   == TLCEval([i \in 1..n |-> TLCEval([j \in 1..ns |-> VEMba(i, j, V2[i][j])])])
        bTE  == TLCEval([j \in 1..ns |-> sc.bTE[j + lmin - 1]])
        bTM  == TLCEval([j \in 1..ns |-> sc.bTM[j + lmin - 1]])
        aTE(i) == sc.aTE[i + lmin - 1]
        aTM(i) == sc.aTM[i + lmin - 1]
        EE(i, j) == Mul(aTE(i), LssSum(<<V0, V2>>, <<V1, V3>>, bTE, bTM, i, j, 1))
        EM(i, j) == Mul(aTE(i), LssSum(<<V0, V2>>, <<V3, V1>>, bTE, bTM, i, j, 1))
        ME(i, j) == Mul(aTM(i), LssSum(<<V2, V0>>, <<V1, V3>>, bTE, bTM, i, j, 1))
        MM(i, j) == Mul(aTM(i), LssSum(<<V2, V0>>, <<V3, V1>>, bTE, bTM, i, j, 1))
    IN  TLCEval([p \in 1..(2*n) |-> TLCEval([q \in 1..(2*n) |->
            IF p <= n THEN (IF q <= n THEN EE(p, q) ELSE EM(p, q - n))
            ELSE (IF q <= n THEN ME(p - n, q) ELSE MM(p - n, q - n))])])

RoundTrip(g, k, m) == LET sc == TLCEval(Scatter(g, k)) IN RoundTripSc(g, sc, m)

(* --- determinants --------------------------------------------------------- *)
IdMinus(M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |->
                 IF i = j THEN Sub(One, M[i][j]) ELSE Neg(M[i][j])])])

\* row reduction with partial pivoting.  Returns <<sign, product>> as a Num
RECURSIVE PivotRow(_, _, _, _)
PivotRow(A, c, r, best) ==
    IF r > Len(A) THEN best
    ELSE PivotRow(A, c, r + 1, IF CmpAbs(A[r][c], A[best][c]) > 0 THEN r ELSE best)

RECURSIVE DetFrom(_, _, _)
DetFrom(A, c, acc) ==
    IF c > Len(A) THEN acc
    ELSE LET p  == PivotRow(A, c, c + 1, c)
             As == IF p = c THEN A ELSE [A EXCEPT ![c] = A[p], ![p] = A[c]]
             pv == As[c][c]
         IN  IF pv[1] = 0 THEN Zero
             ELSE LET ip == TLCEval(Inv(pv))
                      An == TLCEval([r \in 1..Len(A) |->
                               IF r <= c THEN As[r]
                               ELSE LET f == TLCEval(Mul(As[r][c], ip)) IN
                                    IF f[1] = 0 THEN As[r]
                                    ELSE TLCEval([q \in 1..Len(A) |->
                                          IF q <= c THEN Zero ELSE Sub(As[r][q], Mul(f, As[c][q]))])])
                  IN  DetFrom(An, c + 1, Mul(acc, IF p = c THEN pv ELSE Neg(pv)))
Det(A) == DetFrom(A, 1, One)

LnDetSc(g, sc, m) == Ln(Abs(Det(IdMinus(RoundTripSc(g, sc, m)))))
LnDetM(g, k, m) == LET sc == TLCEval(Scatter(g, k)) IN LnDetSc(g, sc, m)

RECURSIVE MSumFrom(_, _, _)
MSumFrom(g, sc, m) == IF m > g.lmax THEN Zero
                      ELSE Add(IF m = 0 THEN LnDetSc(g, sc, 0) ELSE MulI(LnDetSc(g, sc, m), 2),
                               MSumFrom(g, sc, m + 1))
\* the value of one Matsubara frequency: sum over m = -lmax..lmax
MSum(g, k) == LET sc == TLCEval(Scatter(g, k)) IN MSumFrom(g, sc, 0)

\* the zero frequency value is the limit k -> 0 of the finite frequency value
KZero == TenPow(-30)
LnDetM0(g, m) == LnDetM(g, KZero, m)
MSum0(g) == MSum(g, KZero)
=============================================================================
