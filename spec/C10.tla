-------------------------------- MODULE C10 --------------------------------
(* Gaunt integrals and translation coefficients.                            *)
EXTENDS RTJudge, MieJudge
CONSTANT Deep
VARIABLES i, v

(* Families:                                                                *)
(*  gaunt   all l'' of one (l1, l2, m) against Racah's formula              *)
(*  lin     the same for large orders: Y_l1^m Y_l2^-m = sum G Y_l''^0       *)
(*  dyn     translation coefficients (ab, ba; conserving, mixing) x scale   *)
(*  stat    static coefficients = limit of the dynamic ones                 *)
ScnGaunt(n) ==
    LET l1 == IntIn(n, 1, 1, 20)
        l2 == IF Rnd(n, 2, 4) = 0 THEN l1 ELSE IntIn(n, 3, 1, 20)
        lo == IF l1 < l2 THEN l1 ELSE l2
        ab == IF Rnd(n, 4, 8) = 0 THEN lo + IntIn(n, 5, 1, 4) ELSE IntIn(n, 6, 0, lo)
    IN  [fam |-> "gaunt", l1 |-> l1, l2 |-> l2, m |-> IF Rnd(n, 7, 2) = 0 THEN ab ELSE -ab,
         steps |-> <<[op |-> "gaunt"]>>]
ScnLin(n) ==
    LET l1 == IntIn(n, 1, 8, 60)
        l2 == IF Rnd(n, 2, 3) = 0 THEN l1 ELSE IntIn(n, 3, 8, 60)
        lo == IF l1 < l2 THEN l1 ELSE l2
        ab == IF Rnd(n, 4, 6) = 0 THEN lo - IntIn(n, 5, 0, 2) ELSE IntIn(n, 6, 0, lo)
    IN  [fam |-> "lin", l1 |-> l1, l2 |-> l2, m |-> IF Rnd(n, 7, 2) = 0 THEN ab ELSE -ab,
         steps |-> <<[op |-> "gaunt"]>>]
KDyn(n, j) == IF Rnd(n, 30 + j, 3) = 0 THEN Pick(n, 40 + j, <<Dec(1, -6), Dec(1, -4), Dec(2, 1), Dec(9, 1), Dec(1, -2)>>)
              ELSE Dec(IntIn(n, 50 + j, 1, 99), IntIn(n, 60 + j, -2, -1))
ScnTr(n, fam) ==
    LET m == Pick(n, 1, <<0, 0, 1, 1, 2, 3, IntIn(n, 2, 0, Deep), IntIn(n, 2, 0, 4 * Deep)>>)
        lmin == IF m > 1 THEN m ELSE 1
        lmax == lmin + Pick(n, 3, <<0, 1, 2>>)
        lss == lmax + Pick(n, 4, <<0, 1, 2, Deep, IntIn(n, 9, 0, 3 * Deep)>>)
        ext == Rnd(n, 5, 2)
        nk == IntIn(n, 6, 1, 3)
    IN  [fam |-> fam, m |-> m, lmax |-> lmax, lss |-> lss, ext |-> ext, m3 |-> Pick(n, 7, Medium),
         L |-> Dec(IntIn(n, 8, 1, 80), -1), k |-> IF fam = "stat" THEN <<0, 0>> ELSE [j \in 1..nk |-> KDyn(n, j)],
         steps |-> <<[op |-> "trans"]>>]
Scn(n) == CASE n % 4 = 0 -> ScnGaunt(n) [] n % 4 = 1 -> ScnTr(n, "dyn") [] n % 4 = 2 -> ScnLin(n)
            [] OTHER -> ScnTr(n, IF n % 8 = 3 THEN "dyn" ELSE "stat")

Ab(m) == IF m < 0 THEN -m ELSE m
Mn(a, b) == IF a < b THEN a ELSE b
VerdictGaunt(t) ==
    LET r == t.res[1]
        lo == Lo(t.l1, t.l2)
        nn == Mn(t.l1, t.l2) + 1
        w == TLCEval([q \in 1..nn |-> Gaunt(t.l1, t.l2, lo + 2 * (q - 1), Ab(t.m))])
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # <<nn>> THEN "number-of-coefficients"
        ELSE IF \E q \in 1..nn : ~Close(r.v[q], w[q], Tol(10), Tol(11)) THEN "gaunt-integral"
        ELSE "ok"
\* cosines and sines of three angles
Ang == <<<<Q(3, 5), Q(4, 5)>>, <<Q(5, 13), Q(12, 13)>>, <<Q(-15, 17), Q(8, 17)>>>>
\* Legendre polynomials P_0..P_L at x as a sequence
RECURSIVE LegUp(_, _, _)
LegUp(x, L, s) == IF Len(s) > L THEN s
                  ELSE LET l == Len(s) IN
                       LegUp(x, L, Append(s, DivSmall(Sub(Mul(MulI(x, 2*l - 1), s[l]), MulI(s[l - 1], l - 1)), l)))
Leg(x, L) == LegUp(x, L, <<One, x>>)
VerdictLin(t) ==
    LET r == t.res[1]
        lo == Lo(t.l1, t.l2)
        nn == Mn(t.l1, t.l2) + 1
        m == Ab(t.m)
        nrm == TLCEval([q \in 1..nn |-> Mul(r.v[q], Sqrt(Div(I(2 * (lo + 2 * (q - 1)) + 1), MulI(Pi, 4))))])
        lhs(a) == SMul(SgnPow(m), Mul(PBar(t.l1, m, a[1], a[2]), PBar(t.l2, m, a[1], a[2])))
        rhs(a) == LET p == TLCEval(Leg(a[1], t.l1 + t.l2))
                  IN  Sum(TLCEval([q \in 1..nn |-> Mul(nrm[q], p[lo + 2 * (q - 1) + 1])]))
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # <<nn>> THEN "number-of-coefficients"
        ELSE IF \E q \in 1..3 : ~Close(rhs(Ang[q]), lhs(Ang[q]), Zero, Tol(9)) THEN "linearisation-of-product"
        ELSE "ok"

\* terms of the two sums over l''; rounding of the code is relative to the sum of their magnitudes
TrTerms(l1, l2, m, bes, ext, which) ==
    TLCEval([q \in 1..(Mn(l1, l2) + 1) |->
          LET lpp == Lo(l1, l2) + 2 * (q - 1)
              w == IF which = "EE" THEN I(l1*(l1+1) + l2*(l2+1) - lpp*(lpp+1)) ELSE One
          IN  SMul(IF ext THEN -1 ELSE SgnPow(lpp),
                   Mul(Mul(w, Gaunt(l1, l2, lpp, m)), Mul(Sqrt(I(2*lpp + 1)), bes[lpp + 1])))])
Mags(s) == Sum([q \in 1..Len(s) |-> Abs(s[q])])
VerdictDyn(t) ==
    LET r  == t.res[1]
        nk == Len(t.k)
        lmin == IF t.m > 1 THEN t.m ELSE 1
        n1 == t.lmax - lmin + 1
        n2 == t.lss - lmin + 1
        ext == t.ext = 1
        md == MatX(t.m3)
        xs == TLCEval([q \in 1..nk |-> LET k == D(t.k[q]) IN
                Mul(Mul(Sqrt(Mul(EpsOf(md, k), MuOf(md, k))), k), D(t.L))])
        bes == TLCEval([q \in 1..nk |-> IF ext THEN KSeq(xs[q], t.lmax + t.lss) ELSE ISeq(xs[q], t.lmax + t.lss)])
        idx(p, q, a, b) == (p - 1) * nk * n1 * n2 + (q - 1) * n1 * n2 + (a - 1) * n2 + b
        \* rounding of the closed form of i_1 (see C11) is part of the interior coefficients
        tl == TLCEval([q \in 1..nk |-> IF ext THEN Tol(9) ELSE Add(Tol(9), Near3(xs[q]))])
        bad(q, a, b) ==
            LET l1 == lmin + a - 1  l2 == lmin + b - 1
                sc == r.v[idx(5, q, a, b)]
                es == Exp(sc)
                pre == TrPre(l1, l2, t.m, ext)
                tE == TrTerms(l1, l2, t.m, bes[q], ext, "EE")
                tM == IF t.m = 0 THEN <<>> ELSE TrTerms(l1, l2, t.m, bes[q], ext, "EM")
                pm == Mul(MulI(pre, 2 * t.m), xs[q])
                ee == Mul(pre, Sum(tE))
                em == Mul(pm, Sum(tM))
                tee == Mul(tl[q], Mul(Abs(pre), Mags(tE)))
                tem == Mul(tl[q], Mul(Abs(pm), Mags(tM)))
                ok(p, w, tol) == Le(Abs(Sub(Mul(r.v[idx(p, q, a, b)], es), w)), tol)
            IN  IF ~Lt(Abs(sc), TenPow(7)) THEN "scale"
                ELSE IF ~ok(1, ee, tee) THEN "EE-towards"
                ELSE IF ~ok(2, VEEba(l1, l2, ee), tee) THEN "EE-back"
                ELSE IF ~ok(3, em, tem) THEN "EM-towards"
                ELSE IF ~ok(4, VEMba(l1, l2, em), tem) THEN "EM-back"
                ELSE "ok"
        all == TLCEval({bad(q, a, b) : q \in 1..nk, a \in 1..n1, b \in 1..n2} \ {"ok"})
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # <<5, nk, n1, n2>> THEN "range-of-orders"
        ELSE IF all # {} THEN CHOOSE c \in all : TRUE
        ELSE IF r.mut = 1 THEN "arguments-modified"
        ELSE "ok"
VerdictStat(t) ==
    LET r  == t.res[1]
        lmin == IF t.m > 1 THEN t.m ELSE 1
        n1 == t.lmax - lmin + 1
        n2 == t.lss - lmin + 1
        ext == t.ext = 1
        x == TenPow(-30)
        bes == TLCEval(IF ext THEN KSeq(x, t.lmax + t.lss) ELSE ISeq(x, t.lmax + t.lss))
        lim(l1, l2) == LET w == Abs(VEEab(l1, l2, t.m, bes, ext)) IN
                       IF ext THEN Mul(w, Pow(x, l1 + l2 + 1)) ELSE Div(w, Pow(x, Lo(l1, l2)))
        got(a, b) == Mul(Abs(r.v[(a - 1) * n2 + b]), Exp(r.v[n1 * n2 + (a - 1) * n2 + b]))
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # <<2, n1, n2>> THEN "range-of-orders"
        ELSE IF \E a \in 1..n1, b \in 1..n2 : ~Close(got(a, b), lim(lmin + a - 1, lmin + b - 1), Tol(9), Zero) THEN "static-limit"
        ELSE "ok"
Verdict(t) == CASE t.fam = "gaunt" -> VerdictGaunt(t) [] t.fam = "lin" -> VerdictLin(t)
                [] t.fam = "dyn" -> VerdictDyn(t) [] OTHER -> VerdictStat(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
