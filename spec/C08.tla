-------------------------------- MODULE C08 --------------------------------
(* Mie coefficients of solid spheres and of spherical cavities, at finite   *)
(* and at zero frequency.                                                   *)
EXTENDS MieJudge
CONSTANT Deep
VARIABLES i, v

Mats == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Vacuum"), Nm("Gold_plasma"), Nm("Polystyrene"), Nm("Ethanol"),
          Nm("MercurySmith"), Nm("Gold_magnetic"), Nm("Silicon"), Nm("Water"), Nm("SiC"),
          Usr(<<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, <<Dec(5, 0), Dec(6, 14)>>),
          Usr(<<<<Dec(12, 14), Dec(0, 0), Dec(3, 14)>>, <<Dec(7, 14), Dec(5, 14), Dec(0, 0)>>>>, <<>>),
          Usr(<<<<Dec(15, 14), Dec(0, 0), Dec(0, 0)>>>>, <<Dec(2, 0), Dec(9, 14)>>),
          Usr(<<>>, <<Dec(4, 0), Dec(5, 14)>>), Usr(<<>>, <<Dec(3, -1), Dec(5, 14)>>),
          Usr(<<<<Dec(3, 14), Dec(0, 0), Dec(0, 0)>>, <<Dec(5, 14), Dec(0, 0), Dec(0, 0)>>, <<Dec(1, 15), Dec(6, 14), Dec(0, 0)>>>>, <<>>)>>
Media == <<Nm("Vacuum"), Nm("Ethanol"), Nm("Water"), Nm("Ptfe"),
           Usr(<<<<Dec(6, 14), Dec(5, 14), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>),
           Usr(<<<<Dec(9, 14), Dec(3, 14), Dec(2, 14)>>>>, <<>>), Usr(<<>>, <<Dec(25, -1), Dec(7, 14)>>)>>
\* conducting surroundings are meaningful at finite frequency
Media1 == Media \o <<Nm("Gold"), Nm("Gold_plasma"), Nm("Gold_magnetic")>>
Fns == <<"mie", "mie_int", "mie_k0", "mie", "mie_int", "mie_int_k0">>
Zerof(f) == f \in {"mie_k0", "mie_int_k0"}
Intf(f) == f \in {"mie_int", "mie_int_k0"}

K1(n, j) == IF Rnd(n, 40 + j, 3) = 0
            THEN Pick(n, 50 + j, <<Dec(1, -6), Dec(2, 2), Dec(1, 3), Dec(3, -9), Dec(5, 1), Dec(1, -3)>>)
            ELSE Dec(IntIn(n, 60 + j, 1, 99), IntIn(n, 70 + j, -3, 0))
Scn(n) ==
    LET f == Cyc(n, Fns)
        nk == IF Zerof(f) THEN 1 ELSE IntIn(n, 1, 1, 3)
        b == Pick(n, 2, Mats)
        md == IF Zerof(f) THEN Pick(n, 3, Media) ELSE Pick(n, 3, Media1)
        lmin == Pick(n, 4, <<1, 1, 1, 2, 3, 5, IntIn(n, 7, 4, Deep)>>)
        lmax == lmin + Pick(n, 5, <<0, 1, 2, 4, 7, IntIn(n, 8, 0, Deep)>>)
    IN  [fn |-> f, m1 |-> <<IF Intf(f) THEN md ELSE b>>, m2 |-> <<IF Intf(f) THEN b ELSE md>>,
         k |-> [j \in 1..nk |-> IF Zerof(f) THEN <<0, 0>> ELSE K1(n, j)],
         r |-> Pick(n, 6, <<Dec(1, 0), Dec(5, -1), Dec(37, -1), Dec(12, 0), Dec(8, -2)>>),
         lmin |-> lmin, lmax |-> lmax, steps |-> <<[op |-> f]>>]

Verdict(t) ==
    LET r  == t.res[1]
        nk == Len(t.k)
        nl == t.lmax - t.lmin + 1
        a  == MatX(t.m1[1])
        b  == MatX(t.m2[1])
        R  == TLCEval(D(t.r))
        ks == TLCEval([q \in 1..nk |-> IF t.k[q][1] = 0 THEN KZero ELSE D(t.k[q])])
        md == IF Intf(t.fn) THEN a ELSE b
        xe == TLCEval([q \in 1..nk |-> Mul(Mul(IndexOf(md, ks[q]), ks[q]), R)])
        xi == TLCEval([q \in 1..nk |-> Mul(Mul(IndexOf(IF Intf(t.fn) THEN b ELSE a, ks[q]), ks[q]), R)])
        ref(pol) == TLCEval([q \in 1..nk |->
                     IF Intf(t.fn) THEN MieIntSeq(a, b, R, ks[q], t.lmax, pol)
                     ELSE MieExtSeq(<<a, b>>, <<R>>, ks[q], t.lmax, pol)])
        rte == TLCEval(ref("TE"))
        rtm == TLCEval(ref("TM"))
        it == TLCEval([q \in 1..nk |-> ISeq(xe[q], t.lmax)])
        kt == TLCEval([q \in 1..nk |-> KSeq(xe[q], t.lmax)])
        \* factor that makes the zero-frequency limit finite
        zf(q, l) == IF ~Zerof(t.fn) THEN One ELSE Pow(xe[q], IF Intf(t.fn) THEN 2*l + 1 ELSE -(2*l + 1))
        nat(q, l) == LET z == Div(it[q][l + 1], kt[q][l + 1])
                     IN  Mul(zf(q, l), IF Intf(t.fn) THEN Inv(z) ELSE z)
        xsOf(q) == IF Zerof(t.fn) THEN <<>> ELSE <<xe[q], xi[q]>>
        te(q, l) == Mul(zf(q, l), rte[q][l])
        tm(q, l) == Mul(zf(q, l), rtm[q][l])
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.sh # (IF Zerof(t.fn) THEN <<3, nl>> ELSE <<3, nk, nl>>) THEN "range-of-orders"
        ELSE IF ~ScaleSane(r, nk, nl) THEN "scale"
        ELSE IF ~ScaledOk(r, nk, nl, t.lmin, 1, te, nat, xsOf, Tol(8)) THEN "TE-coefficient"
        ELSE IF ~ScaledOk(r, nk, nl, t.lmin, 2, tm, nat, xsOf, Tol(8)) THEN "TM-coefficient"
        ELSE "ok"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
