-------------------------------- MODULE C20 --------------------------------
(* Invalid requests are rejected and leave no trace.                        *)
(*                                                                          *)
(* A behaviour: construct, (maybe) evaluate, one invalid request, evaluate. *)
(* The invalid request must raise; the evaluation after it must give what   *)
(* the same evaluation gives on fresh objects.                              *)
EXTENDS GeoGen
CONSTANT Deep
VARIABLES i, v

Classes == <<"eval", "layers-count", "layers-tuple", "order-lnk", "order-lnik", "order-range", "slice-length", "slice-length-T", "dot-dim", "inv-dim",
             "block-odd", "block-dim", "det-shapes", "diag-shapes", "diag-dim", "logdet-square", "logdet-dim", "medium0", "medium0-int", "layered0",
             "coated0", "nprocs", "parallel", "foreign", "duck", "derivative", "mmax", "force0", "smith", "pfa-list", "geom-layers", "force0-T">>
Cls(n) == Cyc(n, Classes)
\* matrices of given shape
Mat2(n, a, b) == [x \in 1..a |-> [y \in 1..b |-> Dec(IntIn(n, 300 + 10 * x + y, -40, 40), -2)]]
Mat3(n, s, a, b) == [z \in 1..s |-> Mat2(n + z, a, b)]
Cond == <<Nm("Gold"), Nm("Gold_plasma"), Nm("MercurySmith"), Nm("Mercury"), Nm("Silver_plasma"), Nm("SilverDrude"),
          Usr(<<<<Dec(12, 14), Dec(0, 0), Dec(3, 14)>>, <<Dec(7, 14), Dec(5, 14), Dec(0, 0)>>>>, <<>>),
          Usr(<<<<Dec(15, 14), Dec(0, 0), Dec(0, 0)>>>>, <<Dec(2, 0), Dec(9, 14)>>)>>
Conducting == SelectSeq(Cond, LAMBDA x : x.name # "SilverDrude")
Solid(g) == [g EXCEPT !.r1 = <<g.r1[Len(g.r1)]>>, !.r2 = <<g.r2[Len(g.r2)]>>, !.m1 = <<g.m1[1]>>, !.m2 = <<g.m2[1]>>]
Bad(n, c, g) ==
    LET alg(f, a) == [op |-> "alg", fn |-> f, args |-> a]
        p == IntIn(n, 1, 1, 3)  q == IntIn(n, 2, 1, 3)
        gb == [op |-> "geom", as |-> "b"]
        TT(o) == [op |-> "T", as |-> "bt", g |-> o, dT |-> Dec(5, -1), nmax |-> IntIn(n, 3, 0, 3), Tmax |-> Dec(1, 0)]
        lmx == IntIn(n, 4, 0, 6)
    IN
    CASE c = "eval" -> <<gb @@ [eval |-> Pick(n, 5, <<"foo", "LNDET", "", "Trace", "lndet ">>)]>>
      [] c = "layers-count" -> <<[op |-> "strat", ms |-> <<Nm("Gold"), Nm("Vacuum"), Nm("Water")>>, rs |-> Pick(n, 5, <<<<Dec(1, 0)>>, <<Dec(1, 0), Dec(2, 0), Dec(3, 0)>>, <<>>>>),
                                  lmin |-> 1, lmax |-> 2, k |-> <<Dec(1, 0)>>]>>
      [] c = "layers-tuple" -> <<[op |-> "strat", tuple |-> TRUE, ms |-> <<Nm("Gold"), Nm("Polystyrene"), Nm("Water")>>, rs |-> <<Dec(1, 0), Dec(2, 0)>>,
                                  lmin |-> 1, lmax |-> 2, k |-> <<Dec(1, 0)>>]>>
      [] c = "order-lnk" -> <<[op |-> "lnk", x |-> <<Dec(1, 0)>>, lmax |-> Dec(Pick(n, 5, <<35, 20, 5>>), -1)]>>
      [] c = "order-lnik" -> <<[op |-> "lnik", x |-> <<Dec(1, 0)>>, lmax |-> Dec(Pick(n, 5, <<35, 20, 5>>), -1)]>>
      [] c = "order-range" -> <<[op |-> "miebes", x |-> <<Dec(1, 0)>>, lmin |-> lmx + p, lmax |-> lmx]>>
      [] c = "slice-length" -> <<[op |-> "slicewise", poly |-> <<Dec(1, 0)>>, nmin |-> 0, nmax |-> lmx, step |-> Pick(n, 5, <<0, -1, -7, "abc", Dec(5, -1), Dec(-25, -1)>>)]>>
      [] c = "slice-length-T" -> <<TT("g"), [op |-> "fmats", o |-> "bt", step |-> Pick(n, 5, <<0, -1, -7, "abc", Dec(5, -1)>>)]>>
      [] c = "dot-dim" -> <<IF Rnd(n, 6, 2) = 0 THEN alg("dot_3d_matrices", <<Mat2(n, p, p), Mat3(n, q, p, p)>>) ELSE alg("dot_3d_matrices", <<Mat3(n, q, p, p), Mat2(n, p, p)>>)>>
      [] c = "inv-dim" -> <<alg("inv_3d_matrix", <<Mat2(n, p, p)>>)>>
      [] c = "block-odd" -> <<alg("inv_3d_blockmatrix", <<IF Rnd(n, 6, 2) = 0 THEN Mat3(n, q, 2 * p + 1, 2 * p + 1) ELSE Mat3(n, q, 2 * p, 2 * p + 2)>>)>>
      [] c = "block-dim" -> <<alg("inv_3d_blockmatrix", <<Mat2(n, 2 * p, 2 * p)>>)>>
      [] c = "det-shapes" -> <<LET a == Mat3(n, q, p, p)  b == Mat3(n, q, p + 1, p + 1) IN
                               alg("sln_det_3d", Pick(n, 7, <<<<b, a, a, a>>, <<a, b, a, a>>, <<a, a, b, a>>, <<a, a, a, b>>>>))>>
      [] c = "diag-shapes" -> <<alg("sln_det_blockdiagonal", <<Mat2(n, p, p), Mat2(n, p + 1, p + 1)>>)>>
      [] c = "diag-dim" -> <<alg("sln_det_blockdiagonal", <<Mat3(n, q + 1, p + 1, p + 1), Mat3(n, q + 1, p + 1, p + 1)>>)>>
      [] c = "logdet-square" -> <<alg("balanced_slogdet", <<Mat3(n, q, p, p + 1)>>)>>
      [] c = "logdet-dim" -> <<alg("balanced_slogdet", <<Mat2(n, p + 1, p + 1)>>)>>
      [] c = "medium0" -> <<gb @@ [m3 |-> Pick(n, 7, Conducting)], IF Rnd(n, 8, 2) = 0 THEN [op |-> "msum0", o |-> "b"] ELSE [op |-> "single0", o |-> "b", m |-> Rnd(n, 9, g.lmax + 1)]>>
      [] c = "medium0-int" -> <<[op |-> "mie_int_k0", m1 |-> <<Pick(n, 7, Conducting)>>, m2 |-> <<Pick(n, 8, Body)>>, lmin |-> 1, lmax |-> 3, r |-> Dec(1, 0)]>>
      [] c = "layered0" -> <<gb @@ [r1 |-> <<Dec(1, -1), g.r1[1]>>, m1 |-> <<Pick(n, 7, NonPec), Pick(n, 8, NonPec)>>],
                             IF Rnd(n, 9, 2) = 0 THEN [op |-> "msum0", o |-> "b"] ELSE [op |-> "single0", o |-> "b", m |-> 0]>>
      [] c = "coated0" -> <<[op |-> "coated", as |-> "b", r1 |-> <<Dec(5, -1), Dec(1, 0)>>, r2 |-> <<Dec(5, -1), Dec(1, 0)>>, L |-> Dec(3, 0), lmax |-> 2, lss |-> 2,
                             m1 |-> <<Nm("Gold"), Nm("Polystyrene")>>, m2 |-> <<Nm("Gold"), Nm("Polystyrene")>>], [op |-> "msum0", o |-> "b"]>>
      [] c = "nprocs" -> <<TT("g") @@ [nprocs |-> Pick(n, 5, <<-1, -4, Dec(15, -1), "2">>)]>>
      [] c = "parallel" -> <<TT("g") @@ [nprocs |-> 1 + Rnd(n, 5, 4)], Pick(n, 6, <<[op |-> "free_energy", o |-> "bt"], [op |-> "fmats", o |-> "bt"], [op |-> "entropy", o |-> "bt"]>>)>>
      [] c = "foreign" -> <<TT("no geometry")>>
      [] c = "duck" -> <<TT("#duck") @@ [like |-> "g"]>>
      [] c = "derivative" -> <<[op |-> "deriv", f |-> [z \in 1..6 |-> Dec(z * z, 0)], x |-> [z \in 1..6 |-> Dec(IF Rnd(n, 5, 2) = 0 THEN 7 ELSE 10 - z, 0)]]>>
      [] c = "mmax" -> <<[op |-> "oneround", o |-> "g", k |-> <<Dec(1, 0)>>, mmax |-> g.lmax + p]>>
      [] c = "force0" -> <<gb @@ [ff |-> 1], [op |-> "msum0", o |-> "b"]>>
      [] c = "force0-T" -> <<[op |-> "msum0", o |-> "g"], gb @@ [ff |-> 1], [op |-> "single0", o |-> "b", m |-> Rnd(n, 9, g.lmax + 1)]>>
      [] c = "smith" -> <<[op |-> "eps", mat |-> [name |-> "", kind |-> "smith", e |-> <<<<Dec(12, 14), Dec(0, 0), Dec(3, 14)>>, <<Dec(7, 14), Dec(0, 0), Dec(1, 14)>>>>, b |-> <<Dec(1, 0), Dec(1, 14)>>], k |-> <<Dec(1, 0)>>]>>
      [] c = "pfa-list" -> <<[op |-> "pfa", mod |-> Pick(n, 5, <<"PFA", "raw_PFA">>), fn |-> "get_f_matsubaras", args |-> <<Dec(1, 0), Dec(1, 0), <<Dec(1, -10), Dec(1, 0)>>>>, aslist |-> TRUE]>>
      [] OTHER -> <<gb @@ [r1 |-> Pick(n, 5, <<<<Dec(1, -1), g.r1[1]>>, <<g.r1[1]>>>>), m1 |-> <<Pick(n, 7, NonPec), Pick(n, 8, NonPec), Nm("Silicon")>>],
                    [op |-> "msum", o |-> "b", k |-> <<Dec(1, 0)>>]>>
Scn(n) ==
    LET c == Cls(n)
        g == Solid(GeoG(n, Deep, FALSE)) @@ [prec |-> Dec(1, -12)]
        ks == <<Dec(IntIn(n, 11, 1, 30), -1), Dec(IntIn(n, 12, 1, 30), -2)>>
        ev(o) == Pick(n, 13, <<[op |-> "msum", o |-> o, k |-> ks], [op |-> "msum0", o |-> o], [op |-> "single", o |-> o, k |-> ks, m |-> Rnd(n, 14, g.lmax + 1)]>>)
        bad == Bad(n, c, g)
        pre == Rnd(n, 15, 2)
    IN  g @@ [cls |-> c, nbad |-> Len(bad), np |-> pre,
              steps |-> <<[op |-> "geom", as |-> "g"]>> \o (IF pre = 1 THEN <<ev("g")>> ELSE <<>>) \o bad
                        \o <<ev("g"), [op |-> "geom", as |-> "f"], ev("f")>>]

Verdict(t) ==
    LET r == t.res
        b == 1 + t.np + t.nbad
        Eq(x, y) == x.st = "ok" /\ y.st = "ok" /\ AllClose(x.v, y.v, Tol(9), Tol(12))
        rejected == \E q \in (2 + t.np)..b : r[q].st = "raise"
    IN  IF r[1].st # "ok" \/ (t.np = 1 /\ r[2].st # "ok") \/ r[b + 3].st # "ok" THEN "valid-request-rejected"
        ELSE IF r[b].st = "nonfinite" THEN "answered-" \o t.cls
        ELSE IF ~rejected THEN "answered-" \o t.cls
        ELSE IF ~Eq(r[b + 1], r[b + 3]) THEN "later-result-changed-" \o t.cls
        ELSE IF t.np = 1 /\ ~Eq(r[2], r[b + 3]) THEN "results-differ"
        ELSE IF \E q \in 1..Len(r) : r[q].mut = 1 THEN "arguments-modified"
        ELSE "ok"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
