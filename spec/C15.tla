-------------------------------- MODULE C15 --------------------------------
(* Symmetries: relations between evaluations of different geometries.       *)
EXTENDS RTJudge
CONSTANT Deep
VARIABLES i, v

\* materials without an intrinsic length: response constant over all accessible wavenumbers
Flat(e, u) == Usr(IF e = 0 THEN <<>> ELSE <<<<Dec(e, 30), Dec(1, 30), Dec(0, 0)>>>>, IF u = 0 THEN <<>> ELSE <<Dec(u, 0), Dec(1, 40)>>)
Free == <<Nm("PerfectConductor"), Nm("Vacuum"), Flat(2, 0), Flat(5, 0), Flat(1, 4), Flat(0, 6), Flat(30, 0), Flat(3, 2)>>
FreeMd == <<Nm("Vacuum"), Flat(1, 0), Flat(2, 3), Flat(0, 2), Flat(4, 0)>>
Scales == <<<<1, 1>>, <<1, 2>>, <<1, -1>>, <<2, 0>>, <<5, 0>>, <<4, -1>>, <<125, -2>>>>      \* s = n 10^e, n a divisor of 10^3
Times(d, s) == Dec(d[1] * s[1], d[2] + s[2])
Per(d, s) == Dec(d[1] * (1000 \div s[1]), d[2] - s[2] - 3)

Ks(n) == [j \in 1..IntIn(n, 1, 1, 3) |-> Dec(IntIn(n, 10 + j, 1, 40), Pick(n, 20 + j, <<-1, -1, -2, -3>>))]
LM(n) == Pick(n, 2, <<1, 2, 3, 4, 6, Deep, IntIn(n, 3, 15, 36 + Deep)>>)
Big(n) == LM(n) > 14
R(n, j) == IntIn(n, 30 + j, 2, 40)
G(as, r1, r2, L, m1, m2, m3) == [op |-> "geom", as |-> as, r1 |-> <<r1>>, r2 |-> <<r2>>, L |-> L, m1 |-> <<m1>>, m2 |-> <<m2>>, m3 |-> m3]
\* at high orders only the first projections (the others are far below rounding)
Ev(n, o, k) == <<[op |-> "singles", o |-> o, k |-> k], IF Big(n) THEN [op |-> "single", o |-> o, k |-> k, m |-> 2] ELSE [op |-> "msum", o |-> o, k |-> k]>>
Ms1(n, l) == IF l < 4 THEN [q \in 1..(l + 1) |-> q - 1] ELSE <<0, 1, IntIn(n, 3, 2, l)>>
Common(n) == [lmax |-> LM(n), lss |-> LM(n), prec |-> Dec(1, -30), ms |-> IF Big(n) THEN <<0, 1, 3>> ELSE Ms1(n, LM(n)), k |-> Ks(n)]

ScnEx(n) ==
    LET a == Len10(R(n, 1))  b == Len10(R(n, 2))  L == Len10(R(n, 1) + R(n, 2) + IntIn(n, 4, 1, 30))
        x == Pick(n, 5, Body)  y == Pick(n, 6, Body)  z == Pick(n, 7, Medium)
        k == Ks(n)
        lay == Rnd(n, 44, 4) = 0
        zero == ~lay /\ Rnd(n, 8, 2) = 0
        w == Pick(n, 45, NonPec)  w2 == Pick(n, 46, NonPec)
        c(q) == IF R(n, q) < 4 THEN <<Len10(1), Len10(R(n, q))>> ELSE <<Len10(R(n, q) \div 3), Len10(R(n, q) \div 2), Len10(R(n, q))>>
        cm(q, o) == IF R(n, q) < 4 THEN <<o, w>> ELSE <<o, w2, w>>
        both == lay /\ Rnd(n, 47, 2) = 0
        ga(as, ra, ma, rb, mb) == [op |-> "geom", as |-> as, r1 |-> ra, r2 |-> rb, L |-> L, m1 |-> ma, m2 |-> mb, m3 |-> z]
        ra == IF lay THEN c(1) ELSE <<a>>
        ma == IF lay THEN cm(1, x) ELSE <<x>>
        rb == IF both THEN c(2) ELSE <<b>>
        mb == IF both THEN cm(2, y) ELSE <<y>>
    IN  [fam |-> "exchange",
         steps |-> <<ga("a", ra, ma, rb, mb)>> \o Ev(n, "a", k) \o <<ga("b", rb, mb, ra, ma)>> \o Ev(n, "b", k)
                   \o (IF zero THEN <<[op |-> "msum0", o |-> "a"], [op |-> "msum0", o |-> "b"]>> ELSE <<>>)] @@ Common(n)
ScnScale(n) ==
    LET ext == Rnd(n, 9, 3) # 0
        gap == IntIn(n, 4, 2, 30)
        disp == IntIn(n, 40, 2, 20)
        a == Len10(R(n, 1))
        b == IF ext THEN Len10(R(n, 2)) ELSE Len10(R(n, 1) + gap + disp)
        L == IF ext THEN Len10(R(n, 1) + R(n, 2) + gap) ELSE Len10(disp)
        x == Pick(n, 5, Free)  y == Pick(n, 6, Free)  z == Pick(n, 7, FreeMd)
        s == Pick(n, 41, Scales)
        k == Ks(n)
    IN  [fam |-> "scale",
         steps |-> <<G("a", a, b, L, x, y, z)>> \o Ev(n, "a", k)
                   \o <<G("b", Times(a, s), Times(b, s), Times(L, s), x, y, z)>> \o Ev(n, "b", [j \in 1..Len(k) |-> Per(k[j], s)])
                   \o <<[op |-> "msum0", o |-> "a"], [op |-> "msum0", o |-> "b"]>>] @@ Common(n)
ScnClear(n) ==
    LET ext == Rnd(n, 9, 3) # 0
        gap == IntIn(n, 4, 2, 30)
        disp == IntIn(n, 40, 2, 20)
        a == Len10(R(n, 1))
        b == IF ext THEN Len10(R(n, 2)) ELSE Len10(R(n, 1) + gap + disp)
        L == IF ext THEN Len10(R(n, 1) + R(n, 2) + gap) ELSE Len10(disp)
        z == Pick(n, 7, Medium)
        first == Rnd(n, 42, 2) = 0
        o == Pick(n, 5, Body)
        k == Ks(n)
    IN  [fam |-> "clear",
         steps |-> <<G("a", a, b, L, IF first THEN z ELSE o, IF first THEN o ELSE z, z)>> \o Ev(n, "a", k)
                   \o <<[op |-> "msum0", o |-> "a"]>>] @@ Common(n)
ScnMono(n) ==
    LET a == R(n, 1)
        x == Pick(n, 5, Body)  z == Pick(n, 7, Medium)
        g1 == IntIn(n, 4, 1, 30)
        g2 == g1 + IntIn(n, 43, 1, 30)
        k == Ks(n)
        l(g) == Len10(2 * a + g)
    IN  [fam |-> "mono",
         steps |-> <<G("a", Len10(a), Len10(a), l(g1), x, x, z)>> \o Ev(n, "a", k)
                   \o <<G("b", Len10(a), Len10(a), l(g2), x, x, z)>> \o Ev(n, "b", k)] @@ Common(n)
Scn(n) == CASE n % 4 = 0 -> ScnEx(n) [] n % 4 = 1 -> ScnScale(n) [] n % 4 = 2 -> ScnClear(n) [] OTHER -> ScnMono(n)

\* relative to the largest value of the set the entry belongs to
Mx(s) == LET RECURSIVE go(_, _)
             go(q, acc) == IF q > Len(s) THEN acc ELSE go(q + 1, Max2(acc, Abs(s[q])))
         IN  go(1, Zero)
Same(r, w, rel) == r.sh = w.sh /\ \A q \in 1..Len(r.v) : Close(r.v[q], w.v[q], rel, Add(Tol(13), Mul(Tol(10), Mx(w.v))))
Verdict(t) ==
    LET r == t.res IN
    IF \E q \in 1..Len(r) : r[q].st # "ok" THEN "not-evaluated"
    ELSE IF t.fam \in {"exchange", "scale"}
    THEN IF ~Same(r[2], r[5], Tol(6)) THEN t.fam \o "-of-a-projection"
         ELSE IF ~Same(r[3], r[6], Tol(6)) THEN t.fam \o "-of-the-total"
         ELSE IF Len(r) = 8 /\ (Len(r[7].v) # 1 \/ ~Same(r[7], r[8], Tol(8))) THEN t.fam \o "-of-the-static-value"
         ELSE "ok"
    ELSE IF t.fam = "clear"
    THEN IF \E q \in 2..4 : \E p \in 1..Len(r[q].v) : Gt(Abs(r[q].v[p]), Tol(8)) THEN "transparent-sphere-contributes" ELSE "ok"
    ELSE LET down(q, w) == \A p \in 1..Len(r[q].v) :
                   Le(r[q].v[p], Tol(12)) /\ Le(Abs(r[w].v[p]), Add(Mul(Abs(r[q].v[p]), Add(One, Tol(8))), Tol(12)))
         IN  IF \E q \in {2, 3, 5, 6} : \E p \in 1..Len(r[q].v) : Gt(r[q].v[p], Tol(12)) THEN "equal-spheres-repel"
             ELSE IF ~down(2, 5) \/ ~down(3, 6) THEN "grows-with-distance" ELSE "ok"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
