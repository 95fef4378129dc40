-------------------------------- MODULE C18 --------------------------------
(* Proximity approximation of two spheres.                                  *)
(*                                                                          *)
(* The plane-plane free energy is taken from the code at the distances the  *)
(* specification asks for (C17 decides that it is the Lifshitz value); the  *)
(* specification decides that the energy is its integral over the smaller   *)
(* sphere and the force its value at closest approach.                      *)
EXTENDS Lifshitz
CONSTANT Deep
VARIABLES i, v

Bd == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Gold_plasma"), Nm("Polystyrene"), Nm("Silicon"), Nm("MercurySmith"), Nm("SiC"),
        Usr(<<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, <<Dec(5, 0), Dec(6, 14)>>), Usr(<<>>, <<Dec(4, 0), Dec(5, 14)>>)>>
Md == <<Nm("Vacuum"), Nm("Vacuum"), Nm("Ethanol"), Nm("modifiedWater"), Usr(<<>>, <<Dec(2, 0), Dec(7, 14)>>)>>

Fam(n) == Cyc(n, <<"dist", "force", "energy", "energyHT", "force", "energy", "rawforce", "energyHT", "swap", "forceT0", "energyHT", "dist", "rawenergy">>)

\* surface distance at the height r sin(theta), in tenths of microns
Gap(ra, rb, d, ext, sn, cs) ==
    LET lo == Min2(ra, rb)
        rho == Mul(lo, sn)
        h(r) == IF Cmp(r, lo) = 0 THEN Mul(r, cs) ELSE Sqrt(Sub(Sq(r), Sq(rho)))
    IN  IF ext THEN Sub(Sub(d, h(ra)), h(rb)) ELSE Sub(Sub(h(rb), d), h(ra))

Scn(n) ==
    LET fam == Fam(n)
        ext == fam = "swap" \/ Rnd(n, 1, 5) < 3
        g == IntIn(n, 2, 2, 15)                       \* gap in 1/10 micron
        ra == IntIn(n, 3, 1, 5 * g)
        rb == IF ext THEN IntIn(n, 4, 1, 7 * g) ELSE ra + g + (IF Rnd(n, 11, 3) = 0 THEN 0 ELSE IntIn(n, 4, 0, 6 * g))    \* also concentric
        d == IF ext THEN ra + rb + g ELSE rb - ra - g
        R1 == Dec(ra, -1)  R2 == Dec(rb, -1)  DD == Dec(d, -1)
        TT == IF fam = "energyHT" \/ (fam = "swap" /\ Rnd(n, 9, 2) = 0) THEN "inf" ELSE IF fam = "forceT0" THEN Dec(0, 0)
              ELSE Dec((20 \div g) + 1 + IntIn(n, 5, 0, 20), -1)
        sh == Rnd(n, 6, 3) = 0 /\ fam # "forceT0"
        base == [fam |-> fam, ext |-> ext, r1 |-> R1, r2 |-> R2, d |-> DD, T |-> TT, sh |-> sh, g |-> Dec(g, -1),
                 m1 |-> <<Pick(n, 7, Bd)>>, m2 |-> <<Pick(n, 8, Bd)>>, m3 |-> Pick(n, 10, Md)]
        st(f, a) == [op |-> "pfa", mod |-> "PFA", fn |-> f, args |-> a]
        node(q) == Gap(D(R1), D(R2), D(DD), ext, GL[q][1], GL[q][2])
        planes == IF sh /\ fam = "energyHT" THEN <<>> ELSE [q \in 1..24 |-> st("planeplaneFreeEnergy", <<TT, node(q)>>)]
    IN  base @@ [steps |->
            CASE fam = "dist" -> [q \in 1..6 |-> [op |-> "pfa", fn |-> "distance", nosh |-> TRUE,
                                      args |-> <<R1, R2, DD, Mul(Min2(D(R1), D(R2)), GL[4 * q][1])>>]]
                                  \o <<[op |-> "pfa", fn |-> "distance", nosh |-> TRUE, args |-> <<R1, R2, DD, Dec(0, 0)>>]>>
              [] fam \in {"force", "forceT0"} -> <<st("spheresphereForce", <<R1, R2, TT, DD>>), st("planeplaneFreeEnergy", <<TT, Dec(g, -1)>>)>>
              [] fam \in {"rawforce", "rawenergy"} -> <<[op |-> "pfa", mod |-> "raw_PFA", fn |-> IF fam = "rawforce" THEN "spheresphereForce" ELSE "spheresphereEnergy", args |-> <<R1, R2, TT, Dec(g, -1)>>, opts |-> [ext |-> ext]]>>
              [] fam = "swap" -> <<st("spheresphereEnergy", <<R1, R2, TT, DD>>), st("spheresphereEnergy", <<R2, R1, TT, DD>>),
                                   st("spheresphereForce", <<R1, R2, TT, DD>>), st("spheresphereForce", <<R2, R1, TT, DD>>)>>
              [] OTHER -> <<st("spheresphereEnergy", <<R1, R2, TT, DD>>)>> \o planes]

R0 == Mul(I(3), Tol(4))
Verdict(t) ==
    LET r == t.res
        r1 == D(t.r1)  r2 == D(t.r2)  d == D(t.d)  lo == Min2(r1, r2)
        val(q) == r[q].v[1]
        circ == Mul(MulI(Pi, 2), Div(Mul(r1, r2), IF t.ext THEN Add(r1, r2) ELSE Sub(r2, r1)))
        bad == \E q \in 1..Len(r) : r[q].st # "ok" \/ Len(r[q].v) # 1
        m1 == MatX(t.m1[1])  m2 == MatX(t.m2[1])  md == MatX(t.m3)
    IN  IF bad THEN "not-evaluated"
        ELSE CASE t.fam = "dist" ->
                    IF \E q \in 1..6 : ~Close(val(q), Gap(r1, r2, d, t.ext, GL[4 * q][1], GL[4 * q][2]), Tol(11), Tol(11)) THEN "local-distance"
                    ELSE IF ~Close(val(7), D(t.g), Tol(11), Tol(11)) THEN "closest-distance" ELSE "ok"
               [] t.fam \in {"force", "forceT0"} -> IF Close(val(1), Mul(circ, val(2)), Tol(7), Tol(8)) THEN "ok" ELSE "force"
               [] t.fam = "rawforce" ->
                    LET w == LifSum(m1, m2, md, D(t.T), D(t.g), t.sh, "F") IN
                    IF Close(val(1), Mul(circ, w), R0, Mul(circ, Tol(5))) THEN "ok" ELSE "force"
               [] t.fam = "rawenergy" ->      \* the simplified module: half the gap times the force
                    LET w == Mul(LifSum(m1, m2, md, D(t.T), D(t.g), t.sh, "F"), Mul(Half, D(t.g))) IN
                    IF Close(val(1), Mul(circ, w), R0, Mul(circ, Tol(5))) THEN "ok" ELSE "simplified-energy"
               [] t.fam = "swap" ->
                    \* naming the spheres in the other order also names their materials in the other order; all spheres here
                    \* carry the materials by position, so the energy with exchanged radii only agrees because the plane result
                    \* does not depend on the order of the two half-spaces
                    IF ~Close(val(1), val(2), Tol(6), Tol(7)) THEN "energy-depends-on-order"
                    ELSE IF ~Close(val(3), val(4), Tol(6), Tol(7)) THEN "force-depends-on-order" ELSE "ok"
               [] OTHER ->
                    IF Len(r) = 1 THEN (IF IsZero(val(1)) THEN "ok" ELSE "shielded-energy")
                    ELSE LET s == Sum(TLCEval([q \in 1..24 |-> Mul(Mul(GL[q][3], Mul(GL[q][1], GL[q][2])), val(q + 1))]))
                             w == Mul(Mul(MulI(Pi, 2), Sq(lo)), s)
                         IN  IF Close(val(1), w, Tol(5), Tol(7)) THEN "ok" ELSE "energy"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
