-------------------------------- MODULE C16 --------------------------------
(* Automatic and explicit truncation orders and numbers of terms.           *)
EXTENDS RTJudge
CONSTANT Deep
VARIABLES i, v

\* lengths in 1/100
H(x) == Dec(x, -2)
Rr(n, j) == IntIn(n, 10 + j, 20, 900)
Prc(n) == Pick(n, 1, <<1, 2, 3, 4, 5, 6>>)
P10(e) == Dec(1, -e)
\* geometry of a scenario in 1/100: <<r1, r2, L>> for a gap
Conf(ext, a, b, disp, gap) == IF ext THEN <<a, b, a + b + gap>> ELSE <<a, a + disp + gap, disp>>
GL(c, p, off) == [op |-> "get_lmax", ra |-> H(c[1]), rb |-> H(c[2]), L |-> H(c[3]), prec |-> P10(p), loff |-> off]
ScnOrder(n) ==
    LET ext == Rnd(n, 2, 3) # 0
        a == Rr(n, 1)  b == Rr(n, 2)  dd == IntIn(n, 3, 1, 400)
        gap == Pick(n, 4, <<IntIn(n, 5, 1, 40), IntIn(n, 5, 10, 900), IntIn(n, 5, 100, 9000)>>)
        c == Conf(ext, a, b, dd, gap)
        c2 == Conf(ext, a, b, dd, 2 * gap)
        p == Prc(n)
        off == IntIn(n, 6, 1, 9)
        sw == <<c[2], c[1], c[3]>>
    IN  [fam |-> "order", gapr |-> <<gap, IF ext /\ b < a THEN b ELSE a>>, off |-> off, dof |-> IntIn(n, 7, 1, 9),
         steps |-> <<GL(c, p, off), GL(sw, p, off), GL(c2, p, off), GL(c, p + 2, off), GL(c, p, off + IntIn(n, 7, 1, 9))>>]
Geo0(n) == LET ext == Rnd(n, 2, 3) # 0
               a == IntIn(n, 11, 30, 200)
               b == a + IntIn(n, 12, 0, 400)
               dd == IntIn(n, 3, 5, 150)
               gap == (a * IntIn(n, 5, 35, 500)) \div 100
           IN  Conf(ext, a, b, dd, gap)
Bodies == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Polystyrene"), Nm("Gold_plasma"), Nm("Silicon")>>
G(n, as, c, extra) == extra @@ [op |-> "geom", as |-> as, r1 |-> <<H(c[1])>>, r2 |-> <<H(c[2])>>, L |-> H(c[3]),
                           m1 |-> <<Pick(n, 20, Bodies)>>, m2 |-> <<Pick(n, 21, Bodies)>>, m3 |-> Pick(n, 22, <<Nm("Vacuum"), Nm("Water")>>)]
\* constructor: automatic/explicit combinations, on solid or layered spheres, and number of terms
ScnCtor(n) ==
    LET c == Geo0(n)
        sw == IF Rnd(n, 23, 3) = 0 /\ c[3] > c[1] + c[2] THEN <<c[2], c[1], c[3]>> ELSE c
        p == Prc(n)
        off == IntIn(n, 6, 0, 6)
        la == IntIn(n, 7, 1, 30)
        lb == la + IntIn(n, 8, 0, 30)
        lay(r) == <<Dec(r - 10, -2), Dec(r, -2)>>
        both == Rnd(n, 24, 3) = 0 /\ c[3] > c[1] + c[2]
        gl == [GL(sw, p, off) EXCEPT !.op = "get_lmax"]
        base == G(n, "g", sw, [prec |-> P10(p), loff |-> off])
        bl == [base EXCEPT !.r1 = lay(sw[1]), !.r2 = lay(sw[2]), !.m1 = <<Nm("Vacuum"), Nm("Gold")>>, !.m2 = <<Nm("Gold"), Nm("Silicon")>>]
        bb == IF both THEN bl ELSE base
        dT == Dec(IntIn(n, 25, 1, 99), -2)
        nx == IntIn(n, 26, 1, 300)
        tx == Dec(IntIn(n, 27, 1, 60), -1)
    IN  [fam |-> "ctor", c |-> sw, la |-> la, lb |-> lb, nx |-> nx,
         steps |-> <<gl, bb, [lmax |-> la] @@ bb, [lmax |-> la, lss |-> lb] @@ bb, [lss |-> lb + 60] @@ bb,
                     [op |-> "T", as |-> "t", g |-> "g", dT |-> dT, Tmax |-> tx, nmax |-> nx],
                     [op |-> "T", as |-> "u", g |-> "g", dT |-> dT, Tmax |-> tx, nmax |-> "automatic"],
                     [op |-> "attrs", o |-> "t", names |-> <<"nmax", "deltaT", "Tmax">>]>>, dT |-> dT, Tmax |-> tx]
\* sufficiency: automatic orders against much larger ones
ScnEnough(n) ==
    LET c == Geo0(n)
        p == IntIn(n, 1, 1, 4)
        gap == IF c[3] > c[1] + c[2] THEN c[3] - c[1] - c[2] ELSE c[2] - c[1] - c[3]
        k == [j \in 1..2 |-> Dec(IntIn(n, 30 + j, 1, 100 * (10000 \div gap)), -4)]       \* k gap <= 1
    IN  [fam |-> "enough", k |-> k, p |-> p,
         steps |-> <<G(n, "a", c, [prec |-> P10(p)]), [op |-> "msum", o |-> "a"], [op |-> "msum0", o |-> "a"],
                     G(n, "b", c, [prec |-> P10(11), lmax |-> Deep, lss |-> 2 * Deep]), [op |-> "msum", o |-> "b"], [op |-> "msum0", o |-> "b"]>>]
\* number of terms: names of the spheres exchanged, layered spheres of the same size, a lower temperature, a larger order
ScnTerms(n) ==
    LET ext == Rnd(n, 2, 3) # 0
        a == Rr(n, 1)  b == Rr(n, 2)  dd == IntIn(n, 3, 1, 400)
        gap == Pick(n, 4, <<IntIn(n, 5, 5, 40), IntIn(n, 5, 10, 900), IntIn(n, 5, 100, 9000)>>)
        c == Conf(ext, a, b, dd, gap)
        sw == IF ext THEN <<c[2], c[1], c[3]>> ELSE c
        la == IntIn(n, 7, 1, 30)
        dT == IntIn(n, 25, 3, 200)
        lay(x) == [x EXCEPT !.r1 = <<H((c[1] * 3) \div 4), H(c[1])>>, !.m1 = <<Nm("Vacuum"), Nm("Gold")>>]
        g(cc, l) == G(n, "g", cc, [lmax |-> l, lss |-> 2 * l])
        T(d) == [op |-> "T", as |-> "t", g |-> "g", dT |-> Dec(d, -2), Tmax |-> Dec(d * 3, -2), nmax |-> "automatic"]
    IN  [fam |-> "terms", steps |-> <<g(c, la), T(dT), g(sw, la), T(dT), lay(g(c, la)), T(dT), g(c, la), T(dT \div 3), g(c, la * 2), T(dT)>>]
VerdictTerms(t) ==
    LET r == t.res  n(q) == r[q].v[1] IN
    IF \E q \in 1..10 : r[q].st # "ok" THEN "not-evaluated"
    ELSE IF \E q \in {2, 4, 6, 8, 10} : Lt(n(q), One) \/ n(q) # I(Trunc(n(q))) THEN "automatic-number-of-terms"
    ELSE IF n(4) # n(2) THEN "number-of-terms-depends-on-which-sphere-is-first"
    ELSE IF n(6) # n(2) THEN "number-of-terms-depends-on-the-layers"
    ELSE IF Lt(n(8), n(2)) THEN "number-of-terms-does-not-grow-at-low-temperature"
    ELSE IF Lt(n(10), n(2)) THEN "number-of-terms-does-not-grow-with-the-order"
    ELSE "ok"
Scn(n) == CASE n % 5 = 4 -> ScnTerms(n) [] n % 4 = 0 -> ScnCtor(n) [] n % 4 = 1 -> ScnEnough(n) [] OTHER -> ScnOrder(n)

VerdictOrder(t) ==
    LET r == t.res
        val(q) == r[q].v[1]
        far == t.gapr[1] >= 30 * t.gapr[2]
        big == Ge(val(1), I(t.off + 10))
    IN  IF \E q \in 1..5 : r[q].st # "ok" \/ r[q].sh # <<>> THEN "not-evaluated"
        ELSE IF \E q \in 1..5 : r[q].x.isint = 0 \/ Lt(val(q), One) THEN "not-a-positive-integer"
        ELSE IF val(1) # val(2) THEN "depends-on-which-sphere-is-first"
        ELSE IF Gt(val(3), val(1)) \/ (big /\ ~Lt(val(3), val(1))) THEN "does-not-grow-when-closer"
        ELSE IF Lt(val(4), val(1)) \/ (big /\ ~Gt(val(4), val(1))) THEN "does-not-grow-with-precision"
        ELSE IF Lt(val(5), val(1)) \/ (~far /\ val(5) # Add(val(1), I(t.dof))) THEN "offset-not-added"
        ELSE "ok"
VerdictCtor(t) ==
    LET r == t.res
        big == IF t.c[1] > t.c[2] THEN t.c[1] ELSE t.c[2]
        small == IF t.c[1] > t.c[2] THEN t.c[2] ELSE t.c[1]
        lss(l) == {I((big * l) \div small), I(((big * l) \div small) - (IF (big * l) % small = 0 THEN 1 ELSE 0))}    \* floor, exact ratios may round down
        l0 == Trunc(r[1].v[1])
    IN  IF \E q \in 1..Len(r) : r[q].st # "ok" THEN "not-evaluated"
        ELSE IF r[2].v[1] # r[1].v[1] THEN "automatic-order"
        ELSE IF r[2].v[2] \notin lss(l0) THEN "order-of-the-second-sphere"
        ELSE IF r[3].v[1] # I(t.la) \/ r[4].v # <<I(t.la), I(t.lb)>> \/ r[5].v[2] # I(t.lb + 60) THEN "explicit-order-not-used"
        ELSE IF r[3].v[2] \notin lss(t.la) THEN "order-of-the-second-sphere"
        ELSE IF r[5].v[1] # r[1].v[1] THEN "automatic-order"
        ELSE IF r[6].v[1] # I(t.nx) THEN "explicit-number-of-terms"
        ELSE IF Lt(r[7].v[1], One) \/ r[7].v[1] # I(Trunc(r[7].v[1])) THEN "automatic-number-of-terms"
        ELSE IF ~Close(r[8].v[2], D(t.dT), Tol(14), Zero) \/ ~Close(r[8].v[3], D(t.Tmax), Tol(14), Zero) THEN "temperatures-not-used"
        ELSE "ok"
VerdictEnough(t) ==
    LET r == t.res
        tol == Mul(I(3), TenPow(-t.p))
        rel(x, y) == Le(Abs(Sub(x, y)), Add(Mul(tol, Abs(y)), Tol(13)))
    IN  IF \E q \in 1..Len(r) : r[q].st # "ok" THEN "not-evaluated"
        ELSE IF Gt(r[1].v[1], I(Deep - 5)) THEN "ok"         \* reference not large enough to decide
        ELSE IF Len(r[2].v) # 2 \/ Len(r[3].v) # 1 THEN "number-of-values"
        ELSE IF \E q \in 1..2 : ~rel(r[2].v[q], r[5].v[q]) THEN "automatic-order-insufficient"
        ELSE IF ~rel(r[3].v[1], r[6].v[1]) THEN "automatic-order-insufficient-at-zero-frequency"
        ELSE "ok"
Verdict(t) == CASE t.fam = "order" -> VerdictOrder(t) [] t.fam = "terms" -> VerdictTerms(t) [] t.fam = "ctor" -> VerdictCtor(t) [] OTHER -> VerdictEnough(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
