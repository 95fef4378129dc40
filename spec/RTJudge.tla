------------------------------ MODULE RTJudge ------------------------------
(***************************************************************************)
(* The observable meaning of evaluating a geometry at one wavenumber: for  *)
(* every projection m the value is ln|det(1 - M_m)| of the exact truncated *)
(* round-trip operator, the total is  sum_{m=-lmax}^{lmax}.                *)
(* A trace has   res[1] construction, res[2] values for the listed m, and  *)
(* (if t.total) res[3] the total.  t.k = <<0,0>> means the zero-frequency  *)
(* evaluation: the limit k -> 0.                                           *)
(***************************************************************************)
EXTENDS Base

Ms(g) == [q \in 1..(g.lmax + 1) |-> q - 1]

Body == <<Nm("PerfectConductor"), Nm("Gold"), Nm("Gold_plasma"), Nm("Polystyrene"), Nm("Vacuum"), Nm("Silicon"),
          Nm("MercurySmith"), Nm("Gold_magnetic"), Nm("SiC"), Nm("Altern1Ps"), Nm("Ptfe"), Nm("Mercury"),
          Nm("Silver_plasma"),
          Usr(<<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, <<Dec(5, 0), Dec(6, 14)>>),
          Usr(<<<<Dec(12, 14), Dec(0, 0), Dec(3, 14)>>, <<Dec(7, 14), Dec(5, 14), Dec(0, 0)>>>>, <<>>),
          Usr(<<<<Dec(15, 14), Dec(0, 0), Dec(0, 0)>>>>, <<Dec(2, 0), Dec(9, 14)>>),
          Usr(<<>>, <<Dec(4, 0), Dec(5, 14)>>), Nm("Artificial")>>
NonPec == SubSeq(Body, 2, Len(Body))
Medium == <<Nm("Vacuum"), Nm("Ethanol"), Nm("Water"), Nm("modifiedWater"), Nm("Bromobenzene"), Nm("AlternEth"),
            Usr(<<<<Dec(6, 14), Dec(5, 14), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>),
            Usr(<<<<Dec(9, 14), Dec(3, 14), Dec(2, 14)>>, <<Dec(4, 14), Dec(11, 14), Dec(0, 0)>>>>, <<>>),
            Usr(<<>>, <<Dec(25, -1), Dec(7, 14)>>)>>

\* lengths in units of 1/10
Len10(n) == Dec(n, -1)

\* truncation orders and projections: complete sums at low order, high projections, many orders of the second sphere
\* against few of the first, and the very highest projections.  "far": distances so large that a few orders determine
\* the value to more than the tolerance; the code is asked with many orders, the specification with jl of them.
Orders(n, deep) ==
    LET f == n % 8
        kind == CASE n % 16 = 7 -> "far" [] f \in {0, 4} -> "hi" [] f = 2 -> "wide" [] f = 6 -> "top" [] OTHER -> "sum"
        lmax == CASE kind = "hi" -> IntIn(n, 5, 5, 8 + deep) [] kind = "wide" -> IntIn(n, 5, 1, 2)
                  [] kind = "top" -> IntIn(n, 5, 12, 22 + (2 * deep)) [] kind = "far" -> IntIn(n, 5, 15, 36 + (4 * deep)) [] OTHER -> IntIn(n, 5, 1, deep)
        lss == lmax + (CASE kind = "wide" -> IntIn(n, 8, 3, 10) [] kind = "top" -> IntIn(n, 8, 0, 4) [] kind = "far" -> IntIn(n, 8, 0, 12) [] OTHER -> IntIn(n, 8, 0, 2))
        total == kind \in {"sum", "wide"}
    IN  [kind |-> kind, lmax |-> lmax, lss |-> lss, total |-> total, jl |-> IF kind = "far" THEN 6 ELSE lmax,
         ms |-> CASE kind = "hi" -> <<lmax, lmax - 1>> [] kind = "top" -> <<lmax>> [] kind = "far" -> <<0, 1, 2>> [] OTHER -> [q \in 1..(lmax + 1) |-> q - 1]]

RTSteps(total) ==
    <<[op |-> "geom", as |-> "g"], [op |-> "singles", o |-> "g"]>>
    \o (IF total THEN <<[op |-> "msum", o |-> "g"]>> ELSE <<>>)
RTSteps0(total) ==
    <<[op |-> "geom", as |-> "g"], [op |-> "singles0", o |-> "g"]>>
    \o (IF total THEN <<[op |-> "msum0", o |-> "g"]>> ELSE <<>>)

RTVerdictG(t, g, rel) ==
    LET k  == IF t.k[1] = 0 THEN KZero ELSE D(t.k)
        sc == TLCEval(Scatter(g, k))
        n  == Len(t.ms)
        MS == {t.ms[q] : q \in 1..n}
        w  == TLCEval([m \in MS |-> TLCEval(LnDetSc(g, sc, m))])
        tot == TLCEval(Sum([q \in 1..n |-> IF t.ms[q] = 0 THEN w[0] ELSE MulI(w[t.ms[q]], 2)]))
        ab == Add(Tol(12), Mul(Mul(rel, Tol(3)), Abs(tot)))
    IN  IF t.res[1].st # "ok" THEN "construction"
        ELSE IF t.res[2].st # "ok" \/ Len(t.res[2].v) # n THEN "projections-not-returned"
        ELSE IF t.total /\ (t.res[3].st # "ok" \/ Len(t.res[3].v) # 1) THEN "total-not-returned"
        ELSE IF \E q \in 1..n : ~Close(t.res[2].v[q], w[t.ms[q]], rel, ab) THEN "value-of-a-projection"
        ELSE IF t.total /\ ~Close(t.res[3].v[1], tot, rel, ab) THEN "sum-over-projections"
        ELSE "ok"
RTVerdict(t) == LET g == TLCEval(GeoX(IF ~("jl" \in DOMAIN t) \/ t.jl = t.lmax THEN t ELSE [t EXCEPT !.lmax = t.jl, !.lss = t.jl + 1])) IN RTVerdictG(t, g, Tol(6))
=============================================================================
