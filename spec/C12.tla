-------------------------------- MODULE C12 --------------------------------
(* Material responses: sum of oscillators, shapes, classification.          *)
EXTENDS Base
CONSTANT Deep
VARIABLES i, v

Names == <<"Altern1Ps", "Altern2Ps", "AlternEth", "Artificial", "Bromobenzene", "Ethanol", "Gold", "Gold_Bimonte",
           "Gold_magnetic", "Gold_plasma", "Gold_plasma_wp01", "Gold_plasma_wp1", "Gold_plasma_wp10", "Mercury",
           "MercurySmith", "MercurySmith_plasma", "Mercury_plasma", "PerfectConductor", "Polystyrene", "Ptfe", "SiC",
           "SiC_plasma", "Silicon", "Silver", "Silver_plasma", "Vacuum", "Water", "modifiedWater">>
ASSUME {Names[q] : q \in 1..Len(Names)} = MatNames

Osc(n, j) == LET wr == IF Rnd(n, 20 + j, 3) = 0 THEN Dec(0, 0) ELSE Dec(IntIn(n, 30 + j, 1, 99), IntIn(n, 40 + j, 12, 15))
                 g == IF Rnd(n, 50 + j, 2) = 0 THEN Dec(0, 0) ELSE Dec(IntIn(n, 60 + j, 1, 99), IntIn(n, 70 + j, 11, 14))
                 wp == IF Rnd(n, 80 + j, 6) = 0 /\ wr[1] # 0 THEN Dec(0, 0) ELSE Dec(IntIn(n, 90 + j, 1, 99), IntIn(n, 100 + j, 12, 15))
             IN  <<wp, wr, g>>
UserMat(n) ==
    LET ne == IntIn(n, 1, 0, Deep)
        b == IF Rnd(n, 2, 2) = 0 THEN <<>> ELSE <<Dec(IntIn(n, 3, 1, 90), -1), Dec(IntIn(n, 4, 1, 99), IntIn(n, 5, 8, 14))>>
    IN  IF Rnd(n, 6, 5) = 0
        THEN [name |-> "", kind |-> "smith", e |-> <<<<Dec(IntIn(n, 7, 1, 99), 14), Dec(0, 0), Dec(IntIn(n, 8, 1, 99), 13)>>>>, b |-> b]
        ELSE Usr([j \in 1..ne |-> Osc(n, j)], b)
KOf(n, j) == IF Rnd(n, 120 + j, 5) = 0 THEN Pick(n, 130 + j, <<Dec(1, -10), Dec(1, -20), Dec(1, 4)>>)
             ELSE Dec(IntIn(n, 140 + j, 1, 99), IntIn(n, 150 + j, -4, 1))
Scn(n) ==
    LET mt == IF n <= Len(Names) THEN Nm(Names[n]) ELSE IF Rnd(n, 9, 3) = 0 THEN Nm(Pick(n, 10, Names)) ELSE UserMat(n)
        pec == mt.name = "PerfectConductor"
        \* the static response of dielectrics is finite
        st == ~pec /\ mt.kind # "smith" /\ mt.name # "MercurySmith" /\ IsDielectric(MatX(mt)) /\ Rnd(n, 11, 2) = 0
        ks == [j \in 1..4 |-> IF st /\ j = IntIn(n, 12, 1, 4) THEN Dec(0, 0) ELSE KOf(n, j)]
        fl(op, extra) == [op |-> op, k |-> ks]
        es == <<[op |-> "eps", k |-> ks], [op |-> "eps", k |-> <<<<ks[1], ks[2]>>, <<ks[3], ks[4]>>>>],
                [op |-> "eps", k |-> ks[1], scalar |-> TRUE], [op |-> "mu", k |-> ks[2], scalar |-> TRUE],
                [op |-> "eps", k |-> ks]>>
        ms == <<[op |-> "flags"], [op |-> "mu", k |-> ks], [op |-> "mu", k |-> <<<<ks[1]>>, <<ks[2]>>, <<ks[3]>>>>]>>
    IN  [mat |-> mt, ks |-> ks, steps |-> IF pec THEN ms ELSE ms \o es]

Bit(b) == IF b THEN One ELSE Zero
Verdict(t) ==
    LET m == MatX(t.mat)
        pec == IsPec(m)
        ks == DSeq(t.ks)
        ev == TLCEval([q \in 1..4 |-> IF pec THEN Zero ELSE EpsOf(m, ks[q])])
        mv == TLCEval([q \in 1..4 |-> IF pec THEN One ELSE MuOf(m, ks[q])])
        r == t.res
        mag == m.b # <<>> /\ ~IsZero(m.b[1])
        fl == <<Bit(pec), Bit(~pec /\ IsDielectric(m)), Bit(~pec /\ SigmaFinite(m)), Bit(mag)>>
        same(x, sh, w) == x.st = "ok" /\ x.sh = sh /\ AllClose(x.v, w, Tol(12), Zero)
    IN  IF \E q \in 1..Len(r) : r[q].st # "ok" THEN "not-evaluated"
        ELSE IF \E q \in 1..4 : (pec => q # 2) /\ r[1].v[q] # fl[q] THEN "classification"
        ELSE IF ~same(r[2], <<4>>, mv) \/ ~same(r[3], <<3, 1>>, SubSeq(mv, 1, 3)) THEN "permeability"
        ELSE IF pec THEN (IF \E q \in 1..3 : r[q].mut = 1 THEN "arguments-modified" ELSE "ok")
        ELSE IF ~same(r[4], <<4>>, ev) \/ ~same(r[5], <<2, 2>>, ev) THEN "permittivity"
        ELSE IF ~same(r[6], <<>>, <<ev[1]>>) THEN "permittivity-of-a-number"
        ELSE IF ~same(r[7], <<>>, <<mv[2]>>) THEN "permeability-of-a-number"
        ELSE IF r[8].v # r[4].v THEN "not-reproducible"
        ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
        ELSE "ok"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
