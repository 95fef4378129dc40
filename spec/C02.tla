-------------------------------- MODULE C02 --------------------------------
(* A batch of frequencies is the frequencies one by one.                    *)
(*                                                                          *)
(* Every scenario makes one call with an array and one call per element.    *)
(* The judge finds the axis of the frequencies from the shapes and compares *)
(* slice by slice.  Families are the array-valued entry points.             *)
EXTENDS GeoGen
CONSTANT Deep
VARIABLES i, v

Fam(n) == Cyc(n, <<"msum", "mie", "singles", "trans", "lnik", "msum", "strat", "lnk", "msum0", "mie_int", "eps", "rounds", "miebes", "coat", "mu", "trbes",
                   "msump", "oneround", "block", "ifrac", "singlez">>)
\* wavenumbers: tight, spread over decades, repeated, in any order
KV(n, j) == CASE Rnd(n, 1, 4) = 0 -> Dec(IntIn(n, 50 + j, 1, 99), -1)
              [] Rnd(n, 1, 4) = 1 -> Dec(IntIn(n, 50 + j, 1, 9), Pick(n, 70 + j, <<-4, -3, -2, -1, 0>>))
              [] Rnd(n, 1, 4) = 2 -> Dec(Pick(n, 50 + j, <<3, 17, 3>>), -1)
              [] OTHER -> Dec(IntIn(n, 50 + j, 1, 30), Pick(n, 70 + j, <<-1, -1, -2>>))
XV(n, j) == Dec(IntIn(n, 50 + j, 1, 99), Pick(n, 70 + j, <<-7, -5, -4, -3, -2, -1, -1, 0, 0, 1, 2>>))
\* mostly short arrays, now and then a long one
NK(n, cheap) == IF Rnd(n, 19, 6) # 0 THEN IntIn(n, 2, 2, Deep) ELSE IF cheap THEN IntIn(n, 2, 10, 140) ELSE IF Rnd(n, 26, 4) = 0 THEN IntIn(n, 2, 20, 60) ELSE IntIn(n, 2, 6, 12)
Scn(n) ==
    LET fam == Fam(n)
        bes == fam \in {"lnik", "lnk", "miebes", "trbes", "ifrac"}
        ks == [j \in 1..NK(n, bes \/ fam \in {"eps", "mu"}) |-> IF bes THEN XV(n, j) ELSE KV(n, j)]
        geo == fam \in {"msum", "singles", "msum0", "rounds", "msump", "oneround", "block", "singlez"}
        g == GeoG(n, 3, geo /\ fam \notin {"msum0", "singlez"} /\ Rnd(n, 3, 3) = 0) @@ [prec |-> IF fam = "msump" THEN Dec(1, -3) ELSE Dec(1, -13)]
        lmin == IntIn(n, 4, 1, 3)
        lmax == lmin + IntIn(n, 5, 0, 6)
        ms == <<Pick(n, 6, Body), Pick(n, 7, NonPec), Pick(n, 8, Medium)>>
        one == CASE fam \in {"msum", "msum0", "msump"} -> [op |-> "msum", o |-> "g"]
                 [] fam = "singlez" -> [op |-> "single", o |-> "g", m |-> IF Rnd(n, 9, 3) = 0 THEN g.lmax ELSE IntIn(n, 20, 0, g.lmax)]
                 [] fam = "singles" -> [op |-> "singles", o |-> "g"]
                 [] fam = "rounds" -> [op |-> "rounds", o |-> "g", order |-> 3]
                 [] fam = "oneround" -> [op |-> "oneround", o |-> "g"]
                 [] fam = "block" -> [op |-> "block", o |-> "g", m |-> IntIn(n, 9, 0, g.lmax)]
                 [] fam = "mie" -> [op |-> "mie", m1 |-> <<ms[1]>>, m2 |-> <<ms[3]>>, lmin |-> lmin, lmax |-> lmax, r |-> Len10(IntIn(n, 10, 1, 40))]
                 [] fam = "mie_int" -> [op |-> "mie_int", m1 |-> <<ms[3]>>, m2 |-> <<ms[1]>>, lmin |-> lmin, lmax |-> lmax, r |-> Len10(IntIn(n, 10, 1, 40))]
                 [] fam = "strat" -> [op |-> "strat", ms |-> ms, rs |-> <<Len10(IntIn(n, 11, 1, 9)), Len10(IntIn(n, 12, 10, 20))>>, lmin |-> lmin, lmax |-> lmax]
                 [] fam = "coat" -> [op |-> "miecoat", ms |-> <<ms[2], Pick(n, 13, NonPec), ms[3]>>, rs |-> <<Len10(IntIn(n, 11, 1, 9)), Len10(IntIn(n, 12, 10, 20))>>, lmin |-> lmin, lmax |-> lmax]
                 [] fam = "trans" -> [op |-> "trans", lmax |-> lmax, lss |-> lmax + Rnd(n, 14, 2), m |-> IntIn(n, 15, 0, lmax), L |-> Len10(IntIn(n, 16, 5, 60)), ext |-> Rnd(n, 17, 2)]
                 [] fam \in {"lnik", "lnk"} -> [op |-> fam, lmax |-> lmax]
                 [] fam = "miebes" -> [op |-> fam, lmin |-> lmin, lmax |-> lmax]
                 [] fam = "trbes" -> [op |-> fam, lmax |-> lmax, ext |-> Rnd(n, 17, 2)]
                 [] fam = "ifrac" -> [op |-> fam, ls |-> [q \in 1..3 |-> IntIn(n, 18 + q, 0, 12)]]
                 [] OTHER -> [op |-> fam, mat |-> ms[2]]
        arg(x) == IF bes THEN [x |-> x] ELSE [k |-> x]
        zs == IF fam \in {"msum0", "singlez"} THEN <<Dec(0, 0)>> \o ks ELSE ks
    IN  g @@ [fam |-> fam, n |-> Len(zs), pre |-> IF geo THEN 1 ELSE 0,
              steps |-> (IF geo THEN <<[op |-> "geom", as |-> "g"]>> ELSE <<>>)
                        \o <<one @@ arg(zs)>> \o [q \in 1..Len(zs) |-> one @@ arg(<<zs[q]>>)]]

RECURSIVE Prod(_, _, _)
Prod(s, a, b) == IF a > b THEN 1 ELSE s[a] * Prod(s, a + 1, b)
Axes(b, s, n) == {q \in 1..Len(b) : Len(s) = Len(b) /\ s[q] = 1 /\ b[q] = n /\ \A z \in 1..Len(b) : z # q => s[z] = b[z]}
Tight(t) == t.fam \in {"lnik", "lnk", "miebes", "trbes", "eps", "mu", "ifrac"}
Verdict(t) ==
    LET r == t.res
        p == t.pre + 1
        n == t.n
        b == r[p]
        ok == \A q \in 1..Len(r) : r[q].st = "ok"
        s1 == r[p + 1]
    IN  IF ~ok THEN "not-evaluated"
        ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
        ELSE IF t.fam \in {"msum", "msum0", "msump", "singlez"} THEN
             LET w == TLCEval([q \in 1..n |-> r[p + q].v[1]])
                 mx == TLCEval(Abs(w[CHOOSE q \in 1..n : \A z \in 1..n : Le(Abs(w[z]), Abs(w[q]))]))
             IN  IF Len(b.v) # n \/ \E q \in 1..n : Len(r[p + q].v) # 1 THEN "one-value-per-frequency"
                 ELSE IF \A q \in 1..n : (IF t.fam = "msump" THEN Close(b.v[q], w[q], Mul(I(5), D(t.prec)), Mul(D(t.prec), mx))
                                          ELSE Close(b.v[q], w[q], Tol(6), Add(Mul(I(5), Tol(12)), Mul(Tol(12), mx))))
                 THEN "ok" ELSE "batch-differs"
        ELSE IF \E q \in 1..n : r[p + q].sh # s1.sh \/ Len(r[p + q].v) # Len(s1.v) THEN "shape"
        ELSE IF Axes(b.sh, s1.sh, n) = {} THEN "shape"
        ELSE LET ax == CHOOSE q \in Axes(b.sh, s1.sh, n) : TRUE
                 inner == Prod(b.sh, ax + 1, Len(b.sh))
                 outer == Prod(b.sh, 1, ax - 1)
                 rel == IF Tight(t) THEN Tol(10) ELSE Tol(6)
                 ab == IF Tight(t) THEN Tol(11) ELSE Tol(11)
             IN  IF \A o \in 0..(outer - 1), j \in 0..(n - 1), q \in 1..inner :
                       Close(b.v[((o * n + j) * inner) + q], r[p + 1 + j].v[(o * inner) + q], rel, ab)
                 THEN "ok" ELSE "batch-differs"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
