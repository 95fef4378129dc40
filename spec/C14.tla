-------------------------------- MODULE C14 --------------------------------
(* Truncation of the sum over projections and of the round-trip series.     *)
EXTENDS RTJudge
CONSTANT Deep
VARIABLES i, v

(* Families: "m"   early end of the sum over m at the requested precision   *)
(*           "rt"  round-trip series, automatic and of prescribed order     *)
(*           "one" single round trip over prescribed or automatic m         *)
(*           "arb" series of arbitrary matrices                             *)
(*           "mw"  the sum over m for higher orders and closer spheres,     *)
(*                 against the values the code returns for every m (whose   *)
(*                 exactness is C05, C06 and C07)                           *)
(*           "ow"  the same for the single round trip (traces: C22)         *)
Prec(n) == Pick(n, 1, <<Dec(1, -1), Dec(3, -2), Dec(1, -2), Dec(1, -3), Dec(1, -4), Dec(1, -6), Dec(1, -8)>>)
Geo(n, wide) ==
    LET ext == Rnd(n, 2, 3) # 0
        r1 == IntIn(n, 3, 2, 20)
        r2 == IntIn(n, 4, 2, 20)
        sm == IF r1 < r2 THEN r1 ELSE r2
        gap == IF wide THEN sm + IntIn(n, 5, 0, 20) ELSE 1 + (sm \div 2) + IntIn(n, 5, 0, 20)
        disp == IntIn(n, 6, 2, 15)
        lmax == IntIn(n, 7, 1, Deep)
        rep == wide /\ Rnd(n, 17, 4) = 0          \* repulsive: the traces of the powers alternate
    IN  [r1 |-> <<Len10(r1)>>, r2 |-> <<IF ext THEN Len10(r2) ELSE Len10(r1 + disp + gap)>>,
         L |-> IF ext THEN Len10(r1 + r2 + gap) ELSE Len10(disp),
         m1 |-> <<IF rep THEN Nm("PerfectConductor") ELSE Pick(n, 8, Body)>>,
         m2 |-> <<IF rep THEN Usr(<<>>, <<Dec(9, 1), Dec(8, 15)>>) ELSE Pick(n, 9, Body)>>,
         m3 |-> IF rep THEN Nm("Vacuum") ELSE Pick(n, 10, Medium),
         lmax |-> lmax, lss |-> lmax + IntIn(n, 11, 0, 1), prec |-> Prec(n)]
GeoW(n) ==
    LET ext == Rnd(n, 42, 3) # 0
        r1 == IntIn(n, 43, 5, 20)
        r2 == IntIn(n, 44, 5, 20)
        gap == Pick(n, 45, <<1, 1, 2, 2, 3, 5, 9>>)
        disp == IntIn(n, 46, 2, 15)
        lmax == IntIn(n, 47, 4, 2 + (2 * Deep))
    IN  [r1 |-> <<Len10(r1)>>, r2 |-> <<IF ext THEN Len10(r2) ELSE Len10(r1 + disp + gap)>>,
         L |-> IF ext THEN Len10(r1 + r2 + gap) ELSE Len10(disp),
         m1 |-> <<Pick(n, 48, Body)>>, m2 |-> <<Pick(n, 49, Body)>>, m3 |-> Pick(n, 50, Medium),
         lmax |-> lmax, lss |-> lmax + IntIn(n, 51, 0, 3), prec |-> Prec(n)]
KK(n, j) == Dec(IntIn(n, 20 + j, 1, 30), Pick(n, 30 + j, <<-1, -1, -2, -3>>))
Ks(n) == [j \in 1..IntIn(n, 12, 1, 2) |-> KK(n, j)]
Scn(n) ==
    LET fam == Cyc(n, <<"m", "rt", "one", "m", "rt", "arb", "mw", "ow", "mw">>)
        g == IF fam \in {"mw", "ow"} THEN GeoW(n) ELSE Geo(n, fam # "m")
        ks == IF fam = "mw" THEN [j \in 1..IntIn(n, 12, 1, 4) |-> KK(n, j)] ELSE Ks(n)
        ord == IntIn(n, 13, 1, 4)
        mm == IntIn(n, 14, 0, g.lmax)
    IN  CASE fam = "m" -> [fam |-> fam, k |-> ks, ev |-> "lndet",
                           steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "msum", o |-> "g"],
                                       [op |-> "msum0", o |-> "g"]>>] @@ g
          [] fam = "rt" -> [fam |-> fam, k |-> ks, order |-> ord,
                            steps |-> <<[op |-> "geom", as |-> "g", eval |-> "trace"], [op |-> "msum", o |-> "g"],
                                        [op |-> "rounds", o |-> "g"], [op |-> "rounds", o |-> "g", order |-> "automatic"]>>] @@ g
          [] fam = "mw" -> [fam |-> fam, k |-> ks, 
                           steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "msum", o |-> "g"], [op |-> "msum0", o |-> "g"],
                                       [op |-> "singles", o |-> "g"], [op |-> "singles0", o |-> "g"]>>] @@ g
          [] fam = "ow" -> [fam |-> fam, k |-> ks, mmax |-> mm,
                            steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "oneround", o |-> "g"],
                                        [op |-> "oneround", o |-> "g", mmax |-> "automatic"], [op |-> "traces", o |-> "g"]>>] @@ g
          [] fam = "one" -> [fam |-> fam, k |-> ks, mmax |-> mm,
                            steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "oneround", o |-> "g"],
                                        [op |-> "oneround", o |-> "g", mmax |-> "automatic"]>>] @@ g
          [] OTHER -> [fam |-> fam, order |-> IntIn(n, 13, 1, 6),
                       A |-> [s \in 1..IntIn(n, 15, 1, 3) |-> [a \in 1..3 |-> [b \in 1..3 |->
                                 \* of one sign each: a negative matrix gives an alternating series
                                 Dec(IntIn(n, 100 * s + 10 * a + b, 0, 30) * (IF Rnd(n, 16 + s, 2) = 0 THEN 1 ELSE -1), -2)]]],
                       steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "arbitrary", o |-> "g"],
                                   [op |-> "arbitrary", o |-> "g", order |-> "automatic"]>>] @@ g

\* Tr M^n / n for n = 1..N
MProd(x, y) == TLCEval([a \in 1..Len(x) |-> TLCEval([b \in 1..Len(x) |-> Sum([c \in 1..Len(x) |-> Mul(x[a][c], y[c][b])])])])
RECURSIVE TrPow(_, _, _, _)
TrPow(M, P, n, N) == IF n > N THEN <<>>
                     ELSE <<DivSmall(Sum([a \in 1..Len(M) |-> P[a][a]]), n)>> \o TrPow(M, IF n = N THEN P ELSE MProd(M, P), n + 1, N)
Dbl(m, x) == IF m = 0 THEN x ELSE MulI(x, 2)
VerdictG(t) ==
    LET g == TLCEval(GeoX(t))
        nk == Len(t.k)
        p == D(t.prec)
        sc == TLCEval([q \in 1..nk |-> TLCEval(Scatter(g, D(t.k[q])))])
        MS == 0..g.lmax
        mat == TLCEval([q \in 1..nk |-> TLCEval([m \in MS |-> RoundTripSc(g, sc[q], m)])])
        lnd == TLCEval([q \in 1..nk |-> Sum([m1 \in 1..(g.lmax + 1) |-> Dbl(m1 - 1, Ln(Abs(Det(IdMinus(mat[q][m1 - 1])))))])])
        mx == IF nk = 1 THEN Abs(lnd[1]) ELSE Max2(Abs(lnd[1]), Abs(lnd[2]))
        within(r, w, c) == \A q \in 1..nk : Le(Abs(Sub(r.v[q], w[q])), Add(Mul(MulI(p, c), mx), Add(Mul(Tol(7), mx), Tol(12))))
        exact(r, w) == \A q \in 1..nk : Le(Abs(Sub(r.v[q], w[q])), Add(Mul(Tol(6), Abs(w[q])), Add(Mul(Tol(10), mx), Tol(12))))
        good(r) == r.st = "ok" /\ Len(r.v) = nk
        series(N) == TLCEval([q \in 1..nk |-> Neg(Sum([m1 \in 1..(g.lmax + 1) |->
                        LET M == mat[q][m1 - 1] IN Dbl(m1 - 1, Sum(TrPow(M, M, 1, N)))]))])
        tr(mm) == TLCEval([q \in 1..nk |-> Sum([m1 \in 1..(mm + 1) |->
                        LET M == mat[q][m1 - 1] IN Dbl(m1 - 1, Sum([a \in 1..Len(M) |-> M[a][a]]))])])
    IN  IF \E q \in 1..Len(t.res) : t.res[q].st # "ok" THEN "not-evaluated"
        ELSE IF \E q \in 2..(IF t.fam = "m" THEN 2 ELSE Len(t.res)) : ~good(t.res[q]) THEN "number-of-values"
        ELSE IF t.fam = "m"
        THEN IF ~within(t.res[2], lnd, 2) THEN "sum-over-projections-ended-too-early"
             ELSE IF Len(t.res[3].v) # 1 THEN "number-of-values"
             ELSE LET w == MSum0(g) IN
                  IF ~Close(t.res[3].v[1], w, Add(MulI(p, 2), Tol(7)), Tol(12)) THEN "static-sum-ended-too-early" ELSE "ok"
        ELSE IF t.fam = "rt"
        THEN IF ~within(t.res[2], lnd, 2) \/ ~within(t.res[4], lnd, 2) THEN "series-ended-too-early"
             ELSE IF t.res[2].v # t.res[4].v THEN "trace-evaluation-is-not-the-series"
             ELSE IF ~exact(t.res[3], series(t.order)) THEN "partial-sum-of-prescribed-order"
             ELSE "ok"
        ELSE IF ~exact(t.res[2], tr(t.mmax)) THEN "single-round-trip"
             ELSE IF ~within(t.res[3], tr(g.lmax), 3) THEN "automatic-single-round-trip"
             ELSE "ok"
VerdictArb(t) ==
    LET ns == Len(t.A)
        A == TLCEval([s \in 1..ns |-> TLCEval([a \in 1..3 |-> DSeq(t.A[s][a])])])
        w == TLCEval([s \in 1..ns |-> Neg(Sum(TrPow(A[s], A[s], 1, t.order)))])
        ln == TLCEval([s \in 1..ns |-> Ln(Abs(Det(IdMinus(A[s]))))])
        p == D(t.prec)
    IN  IF t.res[2].st # "ok" \/ t.res[3].st # "ok" THEN "not-evaluated"
        ELSE IF t.res[2].mut = 1 \/ t.res[3].mut = 1 THEN "arguments-modified"
        ELSE IF ~AllClose(t.res[2].v, w, Tol(11), Tol(13)) THEN "partial-sum-of-prescribed-order"
        ELSE IF Len(t.res[3].v) # ns \/ \E s \in 1..ns : ~Close(t.res[3].v[s], ln[s], MulI(p, 10), Tol(11)) THEN "series-ended-too-early"
        ELSE "ok"
\* the sum over m = -mm .. mm of values v recorded m by m, nk wavenumbers each
Over(vals, nk, q, mm) == Sum([m1 \in 1..(mm + 1) |-> Dbl(m1 - 1, vals[((m1 - 1) * nk) + q])])
RECURSIVE MaxAbs(_, _)
MaxAbs(w, q) == IF q = Len(w) THEN Abs(w[q]) ELSE Max2(Abs(w[q]), MaxAbs(w, q + 1))
VerdictW(t) ==
    LET nk == Len(t.k)
        p == D(t.prec)
        r == t.res
        all == r[4].v
        w == TLCEval([q \in 1..nk |-> Over(all, nk, q, t.lmax)])
        mx == TLCEval(MaxAbs(w, 1))
        near(x, y, c) == Le(Abs(Sub(x, y)), Add(Mul(MulI(p, c), mx), Add(Mul(Tol(8), mx), Tol(12))))
    IN  IF \E q \in 1..Len(r) : r[q].st # "ok" THEN "not-evaluated"
        ELSE IF Len(r[2].v) # nk \/ Len(all) # nk * (t.lmax + 1) THEN "number-of-values"
        ELSE IF t.fam = "mw"
        THEN IF \E q \in 1..nk : ~near(r[2].v[q], w[q], 2) THEN "sum-over-projections-ended-too-early"
             ELSE IF Len(r[3].v) # 1 \/ Len(r[5].v) # t.lmax + 1 THEN "number-of-values"
             ELSE IF ~Close(r[3].v[1], Over(r[5].v, 1, 1, t.lmax), Add(MulI(p, 2), Tol(8)), Tol(12)) THEN "static-sum-ended-too-early"
             ELSE "ok"
        ELSE IF \E q \in 1..nk : ~Close(r[2].v[q], Over(all, nk, q, t.mmax), Tol(9), Mul(Tol(9), mx)) THEN "single-round-trip"
        ELSE IF Len(r[3].v) # nk \/ \E q \in 1..nk : ~near(r[3].v[q], w[q], 3) THEN "automatic-single-round-trip"
        ELSE "ok"
Verdict(t) == IF t.fam = "arb" THEN VerdictArb(t) ELSE IF t.fam \in {"mw", "ow"} THEN VerdictW(t) ELSE VerdictG(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
