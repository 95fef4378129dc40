-------------------------------- MODULE C22 --------------------------------
(* The matrices of the round-trip operator and their polarisation channels. *)
(*                                                                          *)
(* The normalisation of the multipoles is free (the code rescales rows and  *)
(* columns), so what is observable are the quantities invariant under a     *)
(* diagonal similarity: diagonal elements and products X_ij X_ji.  Channels *)
(* "1" conserve the polarisation at both translations or mix at the second  *)
(* one only; see the definition of Chan below.                              *)
EXTENDS GeoGen, MieJudge
CONSTANT Deep
VARIABLES i, v

Scn(n) ==
    LET g == GeoG(n, Deep, TRUE)
        lay == Len(g.r1) > 1 \/ Len(g.r2) > 1
        zero == ~lay /\ Rnd(n, 1, 3) = 0
        m == IF Rnd(n, 2, 3) = 0 THEN g.lmax ELSE IntIn(n, 3, 0, g.lmax)
        nk == IntIn(n, 4, 1, 2)
        k == [j \in 1..nk |-> Dec(IntIn(n, 10 + j, 1, 40), Pick(n, 20 + j, <<-1, -1, -2, -3>>))]
        b(var) == [op |-> "block", o |-> "g", var |-> var]
    IN  g @@ [m |-> m, zero |-> zero, k |-> IF zero THEN <<<<0, 0>>>> \o k ELSE k, prec |-> Dec(1, -8),
              steps |-> <<[op |-> "geom", as |-> "g"], b(""), b("_channels"), [op |-> "super", o |-> "g"]>>]

(* exact channels of one projection, and the sums of the magnitudes of their terms *)
RECURSIVE ChSum(_, _, _, _, _, _, _)
ChSum(A, bb, W, p, q, l, mag) ==
    IF l > Len(bb) THEN Zero
    ELSE LET x == Mul(Mul(A[p][l], bb[l]), W[q][l])
         IN  Add(IF mag THEN Abs(x) ELSE x, ChSum(A, bb, W, p, q, l + 1, mag))
\* order of the channels as returned: EE1 EE2 MM1 MM2 EM1 EM2 ME1 ME2
Chan(g, sc, m, mag) ==
    LET ext  == IsExt(g)
        lmin == IF m > 1 THEN m ELSE 1
        nn   == g.lmax - lmin + 1
        ns   == g.lss - lmin + 1
        V0 == TLCEval([p \in 1..nn |-> TLCEval([q \in 1..ns |-> VEEab(p + lmin - 1, q + lmin - 1, m, sc.bes, ext)])])
        V2 == TLCEval([p \in 1..nn |-> TLCEval([q \in 1..ns |-> VEMab(p + lmin - 1, q + lmin - 1, m, sc.bes, ext, sc.x)])])
        V1 == TLCEval([p \in 1..nn |-> TLCEval([q \in 1..ns |-> VEEba(p, q, V0[p][q])])])
        V3 == TLCEval([p \in 1..nn |-> TLCEval([q \in 1..ns |-> VEMba(p, q, V2[p][q])])])
        bE == TLCEval([q \in 1..ns |-> sc.bTE[q + lmin - 1]])
        bM == TLCEval([q \in 1..ns |-> sc.bTM[q + lmin - 1]])
        S(a, A, bb, W) == TLCEval([p \in 1..nn |-> TLCEval([q \in 1..nn |->
                LET x == Mul(a[p + lmin - 1], ChSum(A, bb, W, p, q, 1, mag)) IN IF mag THEN Abs(x) ELSE x])])
    IN  TLCEval(<<S(sc.aTE, V0, bE, V1), S(sc.aTE, V2, bM, V3), S(sc.aTM, V2, bE, V3), S(sc.aTM, V0, bM, V1),
                  S(sc.aTE, V0, bE, V3), S(sc.aTE, V2, bM, V1), S(sc.aTM, V2, bE, V1), S(sc.aTM, V0, bM, V3)>>)
\* coefficients enter with magnitudes that include a hundredth of their natural size i_l/k_l, to which the rounding of
\* nearly vanishing coefficients is relative (C08)
Sizes(g, sc, k) ==
    LET nat(r, l, inv) == LET x == TLCEval(Mul(Mul(NMed(g, k), k), r))
                              z == TLCEval([it |-> ISeq(x, l), kt |-> KSeq(x, l)])
                          IN  TLCEval([q \in 1..l |-> LET y == Div(z.it[q + 1], z.kt[q + 1]) IN IF inv THEN Inv(y) ELSE y])
        na == nat(Outer(g.r1), g.lmax, FALSE)
        nb == nat(Outer(g.r2), g.lss, ~IsExt(g))
        xr(r) == TLCEval([q \in 1..Len(r) |-> Mul(Mul(NMed(g, k), k), r[q])])
        up(a, w, r) == TLCEval([q \in 1..Len(a) |-> Add(Abs(a[q]), Mul(Add(Tol(2), Mul(TenPow(7), MieAbs(q, xr(r)))), w[q]))])
    IN  [sc EXCEPT !.aTE = up(sc.aTE, na, g.r1), !.aTM = up(sc.aTM, na, g.r1), !.bTE = up(sc.bTE, nb, g.r2), !.bTM = up(sc.bTM, nb, g.r2)]
MAdd(a, b) == TLCEval([p \in 1..Len(a) |-> TLCEval([q \in 1..Len(a) |-> Add(a[p][q], b[p][q])])])

\* X, Y observed (X_pq and Y_qp belong together), A, C exact, with magnitudes SA, SC
PairsOk(X, Y, A, C, SA, SC, nn, tol) ==
    \A p \in 1..nn, q \in 1..nn :
        Le(Abs(Sub(Mul(X[p][q], Y[q][p]), Mul(A[p][q], C[q][p]))), Add(Mul(tol, Mul(SA[p][q], SC[q][p])), TenPow(-280)))
DiagOk(X, A, SA, nn, tol) == \A p \in 1..nn : Le(Abs(Sub(X[p][p], A[p][p])), Add(Mul(tol, SA[p][p]), TenPow(-280)))

JudgeK(t, g, k, blk, ch, nn) ==
    LET sc == TLCEval(Scatter(g, k))
        E  == Chan(g, sc, t.m, FALSE)
        S  == Chan(g, Sizes(g, sc, k), t.m, TRUE)
        tl == Tol(6)
        EE == MAdd(E[1], E[2])  SEE == MAdd(S[1], S[2])
        MM == MAdd(E[3], E[4])  SMM == MAdd(S[3], S[4])
        EM == MAdd(E[5], E[6])  SEM == MAdd(S[5], S[6])
        ME == MAdd(E[7], E[8])  SME == MAdd(S[7], S[8])
    IN  IF ~DiagOk(blk[1], EE, SEE, nn, tl) THEN "EE-block"
        ELSE IF ~DiagOk(blk[4], MM, SMM, nn, tl) THEN "MM-block"
        ELSE IF ~PairsOk(blk[1], blk[1], EE, EE, SEE, SEE, nn, tl) THEN "EE-block"
        ELSE IF ~PairsOk(blk[4], blk[4], MM, MM, SMM, SMM, nn, tl) THEN "MM-block"
        ELSE IF ~PairsOk(blk[2], blk[3], EM, ME, SEM, SME, nn, tl) THEN "mixing-blocks"
        ELSE IF \E c \in 1..4 : ~DiagOk(ch[c], E[c], S[c], nn, tl) \/ ~PairsOk(ch[c], ch[c], E[c], E[c], S[c], S[c], nn, tl)
             THEN "channel"
        ELSE IF \E c \in {5, 6}, d \in {7, 8} : ~PairsOk(ch[c], ch[d], E[c], E[d], S[c], S[d], nn, tl) THEN "mixing-channel"
        ELSE "ok"
\* at zero frequency the polarisations decouple; A = EE, C = MM are limits of the exact ones
JudgeZero(t, g, blk, ch, nn) ==
    LET sc == TLCEval(Scatter(g, KZero))
        E  == Chan(g, sc, t.m, FALSE)
        S  == Chan(g, Sizes(g, sc, KZero), t.m, TRUE)
        EE == MAdd(E[1], E[2])  SEE == MAdd(S[1], S[2])
        MM == MAdd(E[3], E[4])  SMM == MAdd(S[3], S[4])
        tl == Tol(6)
        vanish(X) == \A p \in 1..nn, q \in 1..nn : X[p][q][1] = 0
        ok(X, A, SA) == DiagOk(X, A, SA, nn, tl) /\ PairsOk(X, X, A, A, SA, SA, nn, tl)
    IN  IF ~ok(blk[1], EE, SEE) THEN "static-EE" ELSE IF ~ok(blk[4], MM, SMM) THEN "static-MM"
        ELSE IF ~vanish(blk[2]) \/ ~vanish(blk[3]) THEN "static-mixing"
        ELSE IF \E c \in {2, 4, 5, 6, 7, 8} : ~vanish(ch[c]) THEN "static-mixing-channel"
        ELSE IF ~ok(ch[1], EE, SEE) \/ ~ok(ch[3], MM, SMM) THEN "static-channel" ELSE "ok"

Verdict(t) ==
    LET g == TLCEval(GeoX(t))
        r == t.res
        lmin == IF t.m > 1 THEN t.m ELSE 1
        nn == t.lmax - lmin + 1
        nk == Len(t.k)
        \* c-th matrix at the q-th wavenumber of a stack
        mat(x, q, c) == TLCEval([a \in 1..nn |-> [b \in 1..nn |-> x.v[(((((c - 1) * nk) + (q - 1)) * nn) + (a - 1)) * nn + b]]])
        blk(q) == TLCEval([c \in 1..4 |-> mat(r[2], q, c)])
        chn(q) == TLCEval([c \in 1..8 |-> mat(r[3], q, c)])
        sup(q, a, b) == r[4].v[((((q - 1) * 2 * nn) + (a - 1)) * 2 * nn) + b]
        eq(x, y) == Close(x, y, Tol(10), Zero)
        supOk(q) == LET X == blk(q) IN
            \A a \in 1..nn, b \in 1..nn : /\ eq(sup(q, a, b), X[1][a][b]) /\ eq(sup(q, a, nn + b), X[2][a][b])
                                          /\ eq(sup(q, nn + a, b), X[3][a][b]) /\ eq(sup(q, nn + a, nn + b), X[4][a][b])
        one(q) == IF t.zero /\ q = 1 THEN JudgeZero(t, g, blk(q), chn(q), nn) ELSE JudgeK(t, g, D(t.k[q]), blk(q), chn(q), nn)
        all == TLCEval({one(q) : q \in 1..nk} \ {"ok"})
    IN  IF r[1].st # "ok" THEN "construction"
        ELSE IF \E q \in 2..4 : r[q].st # "ok" THEN "not-evaluated"
        ELSE IF r[2].sh # <<4, nk, nn, nn>> \/ r[3].sh # <<8, nk, nn, nn>> \/ r[4].sh # <<nk, 2 * nn, 2 * nn>> THEN "shape"
        ELSE IF all # {} THEN CHOOSE c \in all : TRUE
        ELSE IF \E q \in 1..nk : ~supOk(q) THEN "assembled-matrix"
        ELSE IF \E q \in 1..4 : r[q].mut = 1 THEN "arguments-modified"
        ELSE "ok"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
