-------------------------------- MODULE C04 --------------------------------
(* Thermodynamic quantities from the Matsubara terms.                       *)
(*                                                                          *)
(* Families "hist"   energies, entropies and terms requested in any order   *)
(*                   from one object, against terms computed separately     *)
(*          "exact"  free energy against the exact round-trip operator      *)
(*          "many"   more terms than one slice of default length            *)
(*          "e0"     zero-temperature energy over an interval               *)
(*          "e0inf"  the same over all wavenumbers                          *)
(*          "force"  force against the difference quotient of the energy    *)
EXTENDS GeoGen, QuadTable
CONSTANT Deep
VARIABLES i, v

DE == TLCEval(DETab)
GL == TLCEval(GLTab)
Fam(n) == IF n <= 2 THEN "force" ELSE Cyc(n, <<"hist", "exact", "hist", "e0", "hist", "many", "hist", "e0inf", "hist">>)
Req == <<"free_energy", "entropy", "fmats", "free_energy", "entropy">>
\* the force scenarios are fixed: their outcome on the unchanged tree is a known finding
GeoForce == [ext |-> TRUE, r1 |-> <<Dec(1, 0)>>, r2 |-> <<Dec(1, 0)>>, L |-> Dec(3, 0), m1 |-> <<Nm("PerfectConductor")>>,
             m2 |-> <<Nm("PerfectConductor")>>, m3 |-> Nm("Vacuum"), lmax |-> 2, lss |-> 2]
Scn(n) ==
    LET fam == Fam(n)
        lay == fam = "hist" /\ Rnd(n, 1, 4) = 0
        g == (IF fam = "force" THEN GeoForce ELSE GeoG(n, IF fam \in {"exact", "many"} THEN 2 ELSE Deep, lay)) @@ [prec |-> Dec(1, -13)]
        dT == IF fam = "force" THEN Dec(5, -1) ELSE Dec(IntIn(n, 2, 1, 30), Pick(n, 3, <<-1, -1, -2>>))
        nmax == CASE fam = "exact" -> IntIn(n, 5, 1, 4) [] fam = "many" -> IntIn(n, 5, 48, 104) [] fam = "force" -> IF n = 1 THEN 10 ELSE 60
                  [] OTHER -> IntIn(n, 5, 1, Deep + 9)
        s == IF fam = "force" THEN 1 ELSE IntIn(n, 6, 2, 9)
        an0 == fam = "exact" \/ Rnd(n, 7, 4) # 0
        Tmax == Dec(s * dT[1], dT[2])
        T(a, o) == [op |-> "T", as |-> a, g |-> o, dT |-> dT, nmax |-> nmax, Tmax |-> Tmax, an0 |-> an0]
        base == [fam |-> fam, dT |-> dT, nmax |-> nmax, s |-> s, an0 |-> an0] @@ g
        a == IF Rnd(n, 8, 3) = 0 THEN Dec(0, 0) ELSE Dec(IntIn(n, 9, 1, 9), -1)
        b == Dec(a[1] + IntIn(n, 10, 1, 30), -1)
        bn == Rnd(n, 11, 4) = 0
        UB == IF bn THEN Dec(nmax * dT[1], dT[2]) ELSE b
        node(q) == Add(D(a), Mul(Sub(D(UB), D(a)), Sq(GL[q][1])))
        geo(x) == [op |-> "geom", as |-> x]
        \* wavenumbers 0.7 u / length
        scale == Dec(Pick(n, 12, <<7, 10>>), -1)
    IN  CASE fam \in {"hist", "many"} ->
               base @@ [steps |-> <<geo("g"), geo("h"), T("t", "g"), T("u", "h"), [op |-> "fmats", o |-> "u"] @@ (IF fam = "many" THEN [step |-> IntIn(n, 13, 5, 70)] ELSE [step |-> 1])>>
                          \o [q \in 1..IntIn(n, 14, 2, 4) |-> [op |-> Pick(n, 40 + q, Req), o |-> "t"]]]
          [] fam = "exact" -> base @@ [steps |-> <<geo("g"), T("t", "g"), [op |-> "free_energy", o |-> "t"]>>]
          [] fam = "force" -> LET lq(e) == [op |-> "geom", as |-> "g", L |-> Add(D(g.L), e)] IN
               base @@ [steps |-> <<geo("g"), T("t", "g"), [op |-> "force", o |-> "t"], lq(Tol(3)), T("t", "g"), [op |-> "free_energy", o |-> "t"],
                                    lq(Neg(Tol(3))), T("t", "g"), [op |-> "free_energy", o |-> "t"]>>]
          [] fam = "e0" -> 
               base @@ [a |-> a, B |-> UB, steps |-> <<geo("g"), geo("h"), T("t", "g"),
                            [op |-> "e0", o |-> "t"] @@ (IF bn THEN [b |-> "none"] ELSE [b |-> b])>>
                          \o [q \in 1..24 |-> [op |-> "msum", o |-> "h", k |-> <<node(q)>>]]]
          [] OTHER ->
               base @@ [sc |-> scale, steps |-> <<geo("g"), geo("h"), T("t", "g"), [op |-> "e0", o |-> "t"]>>
                          \o [q \in 1..24 |-> [op |-> "msum", o |-> "h", k |-> <<Mul(D(scale), DE[q][1])>>]]]

WT(n, x) == IF n = 0 THEN Mul(Half, x) ELSE x
\* free energy at the temperatures dT, 2 dT, ..., s dT from the terms f (f[1] is the zero frequency, weight included)
FE(f, dT, s) == TLCEval([j \in 1..s |-> TLCEval(Mul(MulI(dT, j),
                   Sum(TLCEval([q \in 1..(((Len(f) - 1) \div j) + 1) |-> f[(q - 1) * j + 1]]))))])
Slope(F, a, b, dT) == Neg(Div(Sub(F[b], F[a]), MulI(dT, b - a)))
Ent(x, F, dT, ab) ==
    LET s == Len(F)
        edge(p, q, r) ==      \* one-sided derivative, of first or of second order
            LET e1 == Slope(F, p, q, dT)
                e2 == IF s < 3 THEN e1 ELSE Sub(MulI(e1, 2), Slope(F, p, r, dT))
            IN  <<e1, e2>>
        okEdge(y, e) == Close(y, e[1], Tol(7), ab) \/ Close(y, e[2], Tol(7), ab)
    IN  /\ Len(x) = s
        /\ \A j \in 2..(s - 1) : Close(x[j], Slope(F, j - 1, j + 1, dT), Tol(7), ab)
        /\ okEdge(x[1], edge(1, 2, IF s < 3 THEN 2 ELSE 3))
        /\ okEdge(x[s], edge(s - 1, s, s))

OK(r) == \A q \in 1..Len(r) : r[q].st = "ok"
VHist(t) ==
    LET r == t.res
        f == r[5].v
        dT == D(t.dT)
        F == FE(f, dT, t.s)
        tot == TLCEval(Max2(Abs(F[1]), Abs(F[t.s])))
        ab == Add(Tol(14), Mul(Tol(8), tot))
        abS == Div(ab, dT)
        J(q) == LET nm == t.steps[q].op IN
                CASE nm = "free_energy" -> IF AllClose(r[q].v, F, Tol(7), ab) THEN "ok" ELSE "free-energy"
                  [] nm = "fmats" -> IF AllClose(r[q].v, f, Tol(7), Mul(Tol(8), Max2(Abs(f[1]), Tol(4)))) THEN "ok" ELSE "terms"
                  [] OTHER -> IF Ent(r[q].v, F, dT, abS) THEN "ok" ELSE "entropy"
        bad == {q \in 6..Len(r) : J(q) # "ok"}
    IN  IF Len(f) # t.nmax + 1 THEN "number-of-terms" ELSE IF bad = {} THEN "ok" ELSE J(CHOOSE q \in bad : TRUE)
Quad(t, r) == LET ba == Sub(D(t.B), D(t.a)) IN
    Sum(TLCEval([q \in 1..24 |-> Mul(Mul(GL[q][3], MulI(Mul(ba, Mul(GL[q][1], GL[q][2])), 2)), r[q + 4].v[1])]))
QuadInf(t, r) == Mul(D(t.sc), Sum(TLCEval([q \in 1..24 |-> Mul(DE[q][2], r[q + 4].v[1])])))
\* the integrand may change its sign: the error of the rule is measured against the integral of its magnitude
QuadInfAbs(t, r) == Mul(D(t.sc), Sum(TLCEval([q \in 1..24 |-> Mul(DE[q][2], Abs(r[q + 4].v[1]))])))
QuadAbs(t, r) == LET ba == Sub(D(t.B), D(t.a)) IN
    Sum(TLCEval([q \in 1..24 |-> Mul(Mul(GL[q][3], MulI(Mul(ba, Mul(GL[q][1], GL[q][2])), 2)), Abs(r[q + 4].v[1]))]))

Verdict(t) ==
    LET r == t.res IN
    IF t.fam = "force" THEN
        (IF r[3].st # "ok" THEN "force-not-evaluated"
         ELSE IF r[6].st # "ok" \/ r[9].st # "ok" THEN "not-evaluated"
         ELSE IF Len(r[3].v) = 1 /\ Close(r[3].v[1], Div(Sub(r[9].v[1], r[6].v[1]), Mul(Two, Tol(3))), Tol(3), Tol(8)) THEN "ok"
         ELSE "force-value")
    ELSE IF ~OK(r) THEN "not-evaluated"
    ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
    ELSE CASE t.fam \in {"hist", "many"} -> VHist(t)
           [] t.fam = "exact" ->
               LET g == TLCEval(GeoX(t))
                   f == TLCEval([q \in 1..(t.nmax + 1) |-> TLCEval(WT(q - 1, MSum(g, IF q = 1 THEN KZero ELSE Mul(I(q - 1), D(t.dT)))))])
                   F == FE(f, D(t.dT), t.s)
               IN  IF AllClose(r[3].v, F, Tol(6), Mul(Tol(7), Max2(Abs(F[1]), Tol(5)))) THEN "ok" ELSE "free-energy-exact"
           [] t.fam = "e0" ->
               IF Len(r[4].v) # 2 THEN "shape"
               ELSE LET w == Quad(t, r)
                        \* slow relaxation of a material leaves structure near zero wavenumber which the rule does not resolve
                        ab == IF t.a[1] = 0 THEN Mul(D(t.B), Mul(Tol(3), Abs(r[28].v[1]))) ELSE Tol(7)
                    IN IF Close(r[4].v[1], w, Zero, Add(Mul(IF t.a[1] = 0 THEN Tol(3) ELSE Tol(5), QuadAbs(t, r)), Add(ab, Tol(7)))) THEN "ok" ELSE "zero-temperature-energy"
           [] OTHER ->
               IF Len(r[4].v) # 2 THEN "shape"
               ELSE LET w == QuadInf(t, r) IN IF Close(r[4].v[1], w, Zero, Add(Mul(Tol(3), QuadInfAbs(t, r)), Tol(6))) THEN "ok" ELSE "zero-temperature-energy"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
