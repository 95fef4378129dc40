-------------------------------- MODULE C03 --------------------------------
(* One Matsubara term per index; the zero frequency at half weight.         *)
(*                                                                          *)
(* Families "slice"  assembling the values of a known function slice by     *)
(*                   slice (exhaustive over small indices and slice lengths)*)
(*          "terms"  terms computed in slices of two lengths against the    *)
(*                   round-trip values at the single frequencies            *)
(*          "exact"  terms against the exact round-trip operator            *)
(*          "n0"     analytic against numerical zero frequency              *)
(*          "long"   the same for several default slices                    *)
(*          "one"    terms of the single round-trip evaluation              *)
EXTENDS GeoGen
CONSTANT Deep
VARIABLES i, v

Fam(n) == Cyc(n, <<"terms", "slice", "terms", "exact", "n0", "slice", "terms", "one", "long">>)
\* n-th tuple (nmin, count, step), all combinations in turn
SliceTuple(n) == LET q == ((n \div 4) * 2) + (n % 2) IN <<(q * 7) % 6, ((q * 5) % (Deep + 8)), 1 + (q % (Deep + 4))>>
Scn(n) ==
    LET fam == Fam(n)
        long == fam = "long"
        lay == fam \in {"terms", "one", "long"} /\ Rnd(n, 1, 3) = 0
        g == GeoG(n, IF long THEN 1 ELSE IF fam = "exact" THEN 2 ELSE Deep, lay)
             @@ [prec |-> Dec(1, -13), eval |-> IF fam = "terms" /\ Rnd(n, 9, 4) = 0 THEN "trace" ELSE "lndet"]
        dT == Dec(IntIn(n, 2, 1, 30), IF long THEN -2 ELSE Pick(n, 3, <<-1, -1, -1, -2, -3, -6>>))
        nmin == IF fam = "n0" THEN 0 ELSE Pick(n, 4, <<0, 0, 0, 1, 2, 3>>)
        cnt == IF long THEN IntIn(n, 5, 48, 104) ELSE IF fam \in {"exact", "n0"} THEN IntIn(n, 5, 1, 3) ELSE IntIn(n, 5, 1, Deep + 6)
        nmax == nmin + cnt - 1
        an0 == Rnd(n, 6, 3) # 0
        s1 == Pick(n, 7, <<1, 2, 3, 4, cnt, cnt + 1, 50>>)
        s2 == IntIn(n, 8, 1, cnt + 1)
        freq(q) == LET nn == nmin + q - 1 IN Dec(nn * dT[1], dT[2])
        st(nm) == [op |-> nm, o |-> "h"]
        tt == [op |-> "T", as |-> "t", g |-> "g", dT |-> dT, nmax |-> nmax, Tmax |-> dT]
        ref(q) == IF nmin + q - 1 = 0
                  THEN (IF an0 /\ ~IsLayered(g) THEN [op |-> "msum0", o |-> "h"] ELSE [op |-> "msum", o |-> "h", k |-> <<Dec(1, -10)>>])
                  ELSE [op |-> "msum", o |-> "h", k |-> <<freq(q)>>]
        ref1(q) == [op |-> "oneround", o |-> "h", k |-> <<IF nmin + q - 1 = 0 THEN Dec(1, -10) ELSE freq(q)>>]
    IN  CASE fam = "slice" ->
               LET u == SliceTuple(n) IN
               [fam |-> fam, nmin |-> u[1], nmax |-> u[1] + u[2] - 1,
                poly |-> [j \in 1..3 |-> Dec(IntIn(n, 30 + j, -99, 99), 0)],
                steps |-> <<[op |-> "slicewise", step |-> IF Rnd(n, 31, 5) = 0 THEN Dec(u[3] * 10, -1) ELSE u[3]]>>]
          [] fam \in {"terms", "long"} ->
               [fam |-> fam, nmin |-> nmin, nmax |-> nmax, dT |-> dT, an0 |-> an0,
                steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "geom", as |-> "h"], tt @@ [an0 |-> an0],
                            IF long THEN [op |-> "fmats", o |-> "t"] ELSE [op |-> "fmats", o |-> "t", step |-> s1], [op |-> "fmats", o |-> "t", step |-> s2]>>
                          \o [q \in 1..cnt |-> ref(q)]] @@ g
          [] fam = "one" ->
               [fam |-> fam, nmin |-> nmin, nmax |-> nmax, dT |-> dT, 
                steps |-> <<[op |-> "geom", as |-> "g"], [op |-> "geom", as |-> "h"], tt @@ [cls |-> "oneRoundtrip"],
                            [op |-> "fmats", o |-> "t", step |-> s1], [op |-> "fmats", o |-> "t", step |-> s2]>>
                          \o [q \in 1..cnt |-> ref1(q)]] @@ g
          [] OTHER ->
               [fam |-> fam, nmin |-> nmin, nmax |-> nmax, dT |-> dT, 
                steps |-> <<[op |-> "geom", as |-> "g"], tt @@ [an0 |-> TRUE], [op |-> "fmats", o |-> "t", step |-> s1],
                            tt @@ [an0 |-> FALSE], [op |-> "fmats", o |-> "t", step |-> s2]>>] @@ g

WT(n, x) == IF n = 0 THEN Mul(Half, x) ELSE x
OK(r) == \A q \in 1..Len(r) : r[q].st = "ok"
Scale(s) == TLCEval(Max2(Tol(12), Abs(s[1])))
VTerms(t) ==
    LET r == t.res
        cnt == t.nmax - t.nmin + 1
        ref == TLCEval([q \in 1..cnt |-> WT(t.nmin + q - 1, r[5 + q].v[1])])
        ab == Mul(Tol(9), Max2(Abs(ref[1]), Tol(3)))
    IN  IF \E q \in 1..cnt : Len(r[5 + q].v) # 1 THEN "reference"
        ELSE IF Len(r[4].v) # cnt \/ Len(r[5].v) # cnt THEN "one-term-per-index"
        ELSE IF t.nmin = 0 /\ ~Close(r[4].v[1], ref[1], Tol(7), ab) THEN "zero-frequency-weight"
        ELSE IF ~AllClose(r[4].v, ref, Tol(7), ab) THEN "value-of-a-term"
        ELSE IF ~AllClose(r[5].v, ref, Tol(7), ab) THEN "slice-length"
        ELSE "ok"
Verdict(t) ==
    LET r == t.res IN
    IF ~OK(r) THEN "not-evaluated"
    ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
    ELSE CASE t.fam = "slice" ->
               LET f(n) == Add(D(t.poly[1]), Add(MulI(D(t.poly[2]), n), MulI(D(t.poly[3]), n * n)))
                   w == TLCEval([q \in 1..(t.nmax - t.nmin + 1) |-> f(t.nmin + q - 1)])
               IN  IF AllClose(r[1].v, w, Zero, Zero) THEN "ok" ELSE "slices"
           [] t.fam \in {"terms", "one", "long"} -> VTerms(t)
           [] t.fam = "n0" ->
               IF Len(r[3].v) # Len(r[5].v) THEN "one-term-per-index"
               ELSE IF ~Close(r[3].v[1], r[5].v[1], Tol(4), Tol(7)) THEN "analytic-zero-frequency"
               ELSE IF ~AllClose(r[3].v, r[5].v, Tol(4), Tol(7)) THEN "slice-length" ELSE "ok"
           [] t.fam = "exact" ->
               LET g == TLCEval(GeoX(t))
                   w == TLCEval([q \in 1..(t.nmax - t.nmin + 1) |->
                          WT(t.nmin + q - 1, MSum(g, IF t.nmin + q = 1 THEN KZero ELSE Mul(I(t.nmin + q - 1), D(t.dT))))])
                   ab == Mul(Tol(7), Max2(Abs(w[1]), Tol(4)))
               IN  IF ~AllClose(r[3].v, w, Tol(6), ab) THEN "terms"
                   ELSE IF ~AllClose(r[5].v, w, Tol(4), Mul(Tol(5), Max2(Abs(w[1]), Tol(2)))) THEN "terms-numerical-zero" ELSE "ok"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
