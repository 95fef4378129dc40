-------------------------------- MODULE C09 --------------------------------
(* Layered and coated spheres: coefficients from the boundary conditions at *)
(* every interface, and the geometries built from such spheres.             *)
EXTENDS MieJudge, RTJudge
CONSTANT Deep
VARIABLES i, v

Core == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Vacuum"), Nm("Gold_plasma"), Nm("Polystyrene"), Nm("Gold_magnetic"),
          Nm("MercurySmith"), Nm("Silicon"),
          Usr(<<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, <<Dec(5, 0), Dec(6, 14)>>),
          Usr(<<>>, <<Dec(4, 0), Dec(5, 14)>>)>>
Shell == <<Nm("Gold"), Nm("Vacuum"), Nm("Ptfe"), Nm("Ethanol"), Nm("Silicon"), Nm("Gold_magnetic"), Nm("SiC"),
           Usr(<<<<Dec(6, 14), Dec(5, 14), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>),
           Usr(<<<<Dec(9, 14), Dec(3, 14), Dec(2, 14)>>>>, <<>>), Usr(<<>>, <<Dec(25, -1), Dec(7, 14)>>)>>
Med == <<Nm("Vacuum"), Nm("Ethanol"), Nm("Water"),
         Usr(<<<<Dec(6, 14), Dec(5, 14), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>), Usr(<<>>, <<Dec(2, 0), Dec(7, 14)>>)>>

K1(n, j) == IF Rnd(n, 40 + j, 4) = 0 THEN Pick(n, 50 + j, <<Dec(1, -6), Dec(2, 2), Dec(4, 1), Dec(1, -3)>>)
            ELSE Dec(IntIn(n, 60 + j, 1, 99), IntIn(n, 70 + j, -2, -1))
\* increasing radii in units 0.01
RECURSIVE RadiiFrom(_, _, _, _, _)
RadiiFrom(n, tag, j, nl, prev) == IF j > nl THEN <<>>
                         ELSE LET x == prev + Pick(n, tag + j, <<1, 5, 12, 30, 80>>)
                              IN  <<Dec(x, -2)>> \o RadiiFrom(n, tag, j + 1, nl, x)
Radii(n, tag, nl, prev) == RadiiFrom(n, tag, 1, nl, prev)
\* materials from the core to the outermost shell; a third of the shells repeat a neighbour or the medium
Layers(n, tag, nl, md) ==
    LET raw == [j \in 1..nl |-> IF j = 1 THEN Pick(n, tag + 1, Core) ELSE Pick(n, tag + j, Shell)]
        rep(j) == Rnd(n, tag + 10 + j, 6)
    IN  [j \in 1..nl |-> IF j > 1 /\ rep(j) = 0 /\ raw[j-1].name # "PerfectConductor" THEN raw[j - 1]
                         ELSE IF j > 1 /\ rep(j) = 1 THEN md ELSE raw[j]]

Base0(n) == IntIn(n, 7, 20, 150)
ScnCoef(n) ==
    LET coat == n % 3 = 0
        nl == IF coat THEN 2 ELSE IntIn(n, 8, 1, 4)
        md == Pick(n, 9, Med)
        lmin == Pick(n, 4, <<1, 1, 1, 2, 3, IntIn(n, 22, 4, Deep)>>)
        lmax == lmin + Pick(n, 5, <<0, 1, 2, 5, IntIn(n, 23, 0, Deep)>>)
        nk == IntIn(n, 6, 1, 2)
    IN  [fam |-> "coef", ms |-> Append(Layers(n, 100, nl, md), md), rs |-> Radii(n, 80, nl, Base0(n)),
         k |-> [j \in 1..nk |-> K1(n, j)], lmin |-> lmin, lmax |-> lmax, twice |-> Rnd(n, 10, 2) = 0,
         steps |-> <<[op |-> IF coat THEN "miecoat" ELSE "strat"]>>]

ScnGeo(n) ==
    LET coat == Rnd(n, 11, 3) = 0
        ext == coat \/ Rnd(n, 12, 4) # 0
        n1 == IF coat THEN 2 ELSE IntIn(n, 13, 1, 3)
        n2 == IF coat THEN 2 ELSE IF ~ext THEN 1 ELSE IntIn(n, 14, 1, 3)
        md == Pick(n, 9, Med)
        r1 == Radii(n, 80, n1, Base0(n))
        sh == IntIn(n, 15, 10, 150)
        gap == IntIn(n, 16, 10, 120)
        r2 == IF ext THEN Radii(n, 90, n2, IntIn(n, 17, 20, 150)) ELSE <<Dec(r1[n1][1] + sh + gap, -2)>>
        lmax == IntIn(n, 18, 1, 2)
        hi == Rnd(n, 19, 3) = 0
        lm == IF hi THEN lmax + 4 ELSE lmax
    IN  [fam |-> "geo", r1 |-> r1, r2 |-> r2, L |-> Dec(IF ext THEN r1[n1][1] + r2[n2][1] + gap ELSE sh, -2),
         m1 |-> Layers(n, 200, n1, md), m2 |-> Layers(n, 300, n2, md), m3 |-> md, lmax |-> lm, lss |-> lm + IntIn(n, 20, 0, 1),
         k |-> Dec(IntIn(n, 21, 1, 40), -1), prec |-> Dec(1, -30), append |-> TRUE,
         ms |-> IF hi THEN <<lm, lm - 1>> ELSE [q \in 1..(lm + 1) |-> q - 1], total |-> ~hi,
         steps |-> <<[op |-> IF coat THEN "coated" ELSE "geom", as |-> "g"], [op |-> "singles", o |-> "g"]>>
                   \o (IF hi THEN <<>> ELSE <<[op |-> "msum", o |-> "g"]>>)]
Scn(n) == IF n % 5 < 3 THEN ScnCoef(n) ELSE ScnGeo(n)

VerdictCoef(t) ==
    LET r  == t.res[1]
        nk == Len(t.k)
        nl == t.lmax - t.lmin + 1
        nr == Len(t.rs)
        ms == MatXs(t.ms)
        rs == DSeq(t.rs)
        ks == DSeq(t.k)
        xe == TLCEval([q \in 1..nk |-> Mul(Mul(IndexOf(ms[nr + 1], ks[q]), ks[q]), rs[nr])])
        rte == TLCEval([q \in 1..nk |-> MieExtSeq(ms, rs, ks[q], t.lmax, "TE")])
        rtm == TLCEval([q \in 1..nk |-> MieExtSeq(ms, rs, ks[q], t.lmax, "TM")])
        it == TLCEval([q \in 1..nk |-> ISeq(xe[q], t.lmax)])
        kt == TLCEval([q \in 1..nk |-> KSeq(xe[q], t.lmax)])
        nat(q, l) == Div(it[q][l + 1], kt[q][l + 1])
        xsOf(q) == TLCEval([p \in 1..(2 * nr) |->
                      LET j == (p + 1) \div 2 IN
                      Mul(Mul(IndexOf(ms[IF p % 2 = 1 THEN j ELSE j + 1], ks[q]), ks[q]), rs[j])])
        te(q, l) == rte[q][l]
        tm(q, l) == rtm[q][l]
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # <<3, nk, nl>> THEN "range-of-orders"
        ELSE IF ~ScaleSane(r, nk, nl) THEN "scale"
        ELSE IF ~ScaledOk(r, nk, nl, t.lmin, 1, te, nat, xsOf, Tol(8)) THEN "TE-coefficient"
        ELSE IF ~ScaledOk(r, nk, nl, t.lmin, 2, tm, nat, xsOf, Tol(8)) THEN "TM-coefficient"
        ELSE IF r.mut = 1 THEN "arguments-modified"
        ELSE "ok"
Verdict(t) == IF t.fam = "coef" THEN VerdictCoef(t) ELSE RTVerdict(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
