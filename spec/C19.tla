-------------------------------- MODULE C19 --------------------------------
(***************************************************************************)
(* Jobs.  State of the specification: the names of the files in the job    *)
(* directory.  A job that succeeds adds one file; a job that fails adds    *)
(* none; another job may take a name at the very moment it is being        *)
(* created ("race"); nothing ever removes or overwrites a name.  TLC       *)
(* enumerates all histories of length Deep over a small alphabet of jobs   *)
(* and initial directories, and one pseudo-random history with a           *)
(* pseudo-random configuration per job for each further scenario.          *)
(* Every history is replayed with the real program; the values in the      *)
(* result files are compared with direct calls whose parameters are        *)
(* derived here from the configuration.                                    *)
(***************************************************************************)
EXTENDS GeoGen
CONSTANTS Deep, NExh, Long
VARIABLES i, v, hist, files, mine

Out == "res"
Small == <<[k |-> "ok", out |-> Out, race |-> 0], [k |-> "ok", out |-> Out \o "1", race |-> 0], [k |-> "badeval", out |-> Out, race |-> 0],
           [k |-> "ok", out |-> Out, race |-> 1]>>
Bad == <<"noradius", "badeval", "badmat", "badquantity", "badd", "noconfig", "fewargs", "manyargs", "baddist", "nosection", "badlmax", "badnmax",
         "badTmin", "badprec", "badn0", "nodistance", "badlss">>
Pre == <<{}, {Out}, {Out \o "1"}, {Out, Out \o "1"}, {Out, Out \o "11"}>>

\* ---- the state machine --------------------------------------------------------
RECURSIVE Free(_, _)
Free(nm, fs) == IF nm \in fs THEN Free(nm \o "1", fs) ELSE nm
RECURSIVE Races(_, _, _)
Races(nm, fs, r) == IF r = 0 THEN fs ELSE Races(nm, fs \cup {Free(nm, fs)}, r - 1)
GInit == /\ i \in 1..NScn
         /\ v = "new"
         /\ hist = <<>>
         /\ files \in (IF i <= NExh THEN {Pre[q] : q \in 1..Len(Pre)} ELSE {Pick(i, 300, Pre)})
         /\ mine = <<>>
Do(x) == LET taken == Races(x.out, files, x.race)
             nm == Free(x.out, taken)
         IN  IF x.k = "ok"
             THEN files' = taken \cup {nm} /\ mine' = Append(mine, nm) /\ hist' = Append(hist, [x |-> x, nm |-> nm, fs |-> files])
             ELSE UNCHANGED <<files, mine>> /\ hist' = Append(hist, [x |-> x, nm |-> "", fs |-> files])
MaxLen == IF i <= NExh THEN Deep ELSE Long
RndJob(n, q) == LET ok == Rnd(n, 310 + q, 4) # 0 IN
    [k |-> IF ok THEN "ok" ELSE Pick(n, 320 + q, Bad), out |-> Pick(n, 330 + q, <<Out, Out, Out \o ".dat", Out \o "1">>),
     race |-> IF ok /\ Rnd(n, 340 + q, 5) = 0 THEN 1 + Rnd(n, 350 + q, 2) ELSE 0]

\* every result has a file of its own, and no name ever disappears
Own == \A a, b \in 1..Len(mine) : a # b => mine[a] # mine[b]
Kept == \A q \in 1..Len(hist) : hist[q].fs \subseteq files
NewName == \A q \in 1..Len(hist) : hist[q].nm = "" \/ hist[q].nm \notin hist[q].fs

\* ---- configurations -----------------------------------------------------------
\* n: number of the scenario, q: number of the job in its history
Txt(d) == ToString(d[1]) \o "e" \o ToString(d[2])
TxtD(d) == IF d[2] = -1 THEN ToString(d[1] \div 10) \o "." \o ToString(d[1] % 10)
           ELSE IF d[2] = 0 THEN ToString(d[1]) ELSE Txt(d)
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
TxtMat(m) == IF m.name # "" THEN "materials." \o m.name
             ELSE "materials.LorentzMaterial([" \o (IF m.e = <<>> THEN "" ELSE Join([q \in 1..Len(m.e) |-> "(" \o Txt(m.e[q][1]) \o "," \o Txt(m.e[q][2]) \o "," \o Txt(m.e[q][3]) \o ")"], ", "))
                  \o "], (" \o (IF m.b = <<>> THEN "" ELSE Txt(m.b[1]) \o ", " \o Txt(m.b[2])) \o "))"
TxtMats(ms, md) == IF Len(ms) = 1 THEN TxtMat(ms[1]) ELSE Join([q \in 1..Len(ms) |-> TxtMat(ms[q])], ", ") \o ", " \o TxtMat(md)
Quant == <<[t |-> "free_energy()", s |-> [op |-> "free_energy"]], [t |-> "entropy()", s |-> [op |-> "entropy"]],
           [t |-> "get_f_matsubaras(0)", s |-> [op |-> "fmats"]], [t |-> "get_f_matsubaras(2)", s |-> [op |-> "fmats", nmin |-> 2]],
           [t |-> "get_f_matsubaras(0, 3)", s |-> [op |-> "fmats", step |-> 3]], [t |-> "e0(0.5, 1.5)", s |-> [op |-> "e0", a |-> Dec(5, -1), b |-> Dec(15, -1)]],
           [t |-> "e0(0.25, None)", s |-> [op |-> "e0", a |-> Dec(25, -2), b |-> "none"]]>>
No0 == <<[t |-> "", f |-> TRUE], [t |-> "True", f |-> TRUE], [t |-> "False", f |-> FALSE], [t |-> "no", f |-> FALSE], [t |-> "on", f |-> TRUE], [t |-> "0", f |-> FALSE]>>
Precs == <<[t |-> "1e-2", d |-> Dec(1, -2)], [t |-> "0.001", d |-> Dec(1, -3)], [t |-> "1e-4", d |-> Dec(1, -4)], [t |-> "1e-9", d |-> Dec(1, -9)]>>

\* the parameters of a job
Par(n, q) ==
    LET z == (n * 10) + q
        g == GeoG(z, 3, Rnd(z, 400, 3) = 0)
        auto == Rnd(z, 401, 4) = 0
        lssauto == auto \/ Rnd(z, 402, 3) = 0
        pr == IF auto THEN Precs[1] ELSE Pick(z, 403, Precs)
        s == IntIn(z, 405, 2, 6)
        loff == Pick(z, 406, <<-1, -1, 0, 2, 5>>)
        ev == Pick(z, 407, <<"", "lndet", "trace", "lndet">>)
        nmax == Pick(z, 408, <<0, 1, 3, 6, 9>>)
        \* the automatic number of terms grows like lmax over gap times temperature
        dT == Dec(IntIn(z, 404, IF nmax = 0 THEN 30 ELSE 3, 60), -2)
        qq == Pick(z, 410, Quant)
    IN  [auto |-> auto, lssauto |-> lssauto, pr |-> pr, dT |-> dT, s |-> s, loff |-> loff, ev |-> ev,
         n0 |-> Pick(z, 409, No0), nmax |-> nmax, q |-> IF nmax > 0 /\ nmax < 2 /\ qq.t = "get_f_matsubaras(2)" THEN Quant[1] ELSE qq,
         dist |-> Rnd(z, 411, 3) = 0, sep |-> Pick(z, 412, <<":", " =">>), form |-> Rnd(z, 413, 2)] @@ g
L2(p) == Dec(p.L[1] + 3, p.L[2])         \* a distance in the configuration that the command line overrides
Num1(p, d) == IF p.form = 0 THEN TxtD(d) ELSE Txt(d)
Opt(name, val) == IF val = "" THEN <<>> ELSE <<<<name, val>>>>
Cfg(p, k) ==
    LET r(x) == Join([q \in 1..Len(x) |-> Num1(p, x[q])], IF p.form = 0 THEN ", " ELSE ",")
        geo == (IF k = "noradius" THEN <<>> ELSE <<<<"ra", r(p.r1)>>>>) \o <<<<"rb", r(p.r2)>>>>
               \o (IF k = "nodistance" THEN <<>> ELSE <<<<"d", IF k = "badd" THEN "far" ELSE Num1(p, IF p.dist THEN L2(p) ELSE p.L)>>>>)
               \o <<<<"lmax", IF k = "badlmax" THEN "many" ELSE IF p.auto THEN "automatic" ELSE ToString(p.lmax)>>,
                    <<"lssmax", IF k = "badlss" THEN "many" ELSE IF p.lssauto THEN "automatic" ELSE ToString(p.lss)>>,
                    <<"precision", IF k = "badprec" THEN "high" ELSE p.pr.t>>>>
               \o (IF p.loff < 0 THEN <<>> ELSE <<<<"l_offset", ToString(p.loff)>>>>)
               \o Opt("evaluation", IF k = "badeval" THEN "product" ELSE p.ev)
               \o Opt("analytic_n0", IF k = "badn0" THEN "maybe" ELSE p.n0.t)
        mat == <<<<"mata", IF k = "badmat" THEN "materials.Unobtainium" ELSE TxtMats(p.m1, p.m3)>>, <<"matb", TxtMats(p.m2, p.m3)>>, <<"matmd", TxtMat(p.m3)>>>>
        thermo == <<<<"Tmin", IF k = "badTmin" THEN "cold" ELSE Txt(p.dT)>>, <<"Tmax", Txt(Dec(p.s * p.dT[1], p.dT[2]))>>,
                    <<"nmax", IF k = "badnmax" THEN "many" ELSE IF p.nmax = 0 THEN "automatic" ELSE ToString(p.nmax)>>,
                    <<"quantity", IF k = "badquantity" THEN "happiness()" ELSE p.q.t>>>>
        sec(nm, o) == [name |-> nm, sep |-> p.sep, opts |-> o]
    IN  <<sec("geometry", geo), sec("materials", mat)>> \o (IF k = "nosection" THEN <<>> ELSE <<sec("thermodynamics", thermo)>>)
Ev(p) == IF p.ev = "" THEN "lndet" ELSE p.ev
JobStep(n, q, h) ==
    LET p == Par(n, q)  k == h.x.k
        cf == Pick(n, 420 + q, <<"job.config", "second.cfg">>)
        argv == CASE k = "fewargs" -> <<cf>>
                  [] k = "manyargs" -> <<cf, h.x.out, Txt(p.L), "1.0">>
                  [] k = "noconfig" -> <<"missing.config", h.x.out>>
                  [] k = "baddist" -> <<cf, h.x.out, "near">>
                  [] k \in {"nodistance", "badd"} -> <<cf, h.x.out>>
                  [] OTHER -> <<cf, h.x.out>> \o (IF p.dist THEN <<Num1(p, p.L)>> ELSE <<>>)
    IN  [op |-> "job", cfgname |-> cf, cfg |-> Cfg(p, k), argv |-> argv, race |-> h.x.race,
         say |-> <<"mat1=" \o TxtMats(p.m1, p.m3), "mat2=" \o TxtMats(p.m2, p.m3), "matMd=" \o TxtMat(p.m3),
                   "quantity:" \o p.q.t, "evaluation:" \o Ev(p)>>]
\* the same computation by direct calls
Ref(n, q) ==
    LET p == Par(n, q)
        lay == Len(p.r1) > 1 \/ Len(p.r2) > 1
        t == [op |-> "T", as |-> "t", g |-> "g", dT |-> p.dT, Tmax |-> Dec(p.s * p.dT[1], p.dT[2]), an0 |-> p.n0.f /\ ~lay]
    IN  <<[op |-> "geom", as |-> "g", r1 |-> p.r1, r2 |-> p.r2, L |-> p.L, m1 |-> p.m1, m2 |-> p.m2, m3 |-> p.m3, prec |-> p.pr.d, eval |-> Ev(p),
           loff |-> IF p.loff < 0 THEN 0 ELSE p.loff]
           @@ (IF p.auto THEN [lmax |-> "automatic"] ELSE [lmax |-> p.lmax]) @@ (IF p.lssauto THEN [lss |-> "automatic"] ELSE [lss |-> p.lss]),
          (IF p.nmax = 0 THEN [nmax |-> "automatic"] ELSE [nmax |-> p.nmax]) @@ t, [o |-> "t"] @@ p.q.s>>
RECURSIVE Refs(_, _, _)
Refs(n, h, q) == IF q > Len(h) THEN <<>> ELSE (IF h[q].x.k = "ok" THEN Ref(n, q) ELSE <<>>) \o Refs(n, h, q + 1)
\* what the header has to say about the parameters that are not results
Stated(n, q) == LET p == Par(n, q) IN [r1 |-> p.r1, r2 |-> p.r2, d |-> <<p.L>>, l_offset |-> <<Dec(IF p.loff < 0 THEN 0 ELSE p.loff, 0)>>, deltaT |-> <<p.dT>>,
                                     Tmax |-> <<Dec(p.s * p.dT[1], p.dT[2])>>, precision |-> <<p.pr.d>>]
SetToList(S) == SelectSeq(<<Out, Out \o "1", Out \o "11">>, LAMBDA x : x \in S)
Scenario(n, h) ==
    LET js == [q \in 1..Len(h) |-> JobStep(n, q, h[q])]
        first == <<[pre |-> SetToList(h[1].fs)] @@ js[1]>>
    IN  [hist |-> [q \in 1..Len(h) |-> [k |-> h[q].x.k, out |-> h[q].x.out, race |-> h[q].x.race, free |-> IF h[q].x.out \in h[q].fs THEN 0 ELSE 1]],
         fact |-> [q \in 1..Len(h) |-> Stated(n, q)],
         steps |-> first \o Tail(js) \o Refs(n, h, 1)]
GNext ==
    \/ /\ v = "new" /\ Len(hist) < MaxLen
       /\ \E x \in (IF i <= NExh THEN {Small[q] : q \in 1..Len(Small)} ELSE {RndJob(i, Len(hist))}) : Do(x)
       /\ UNCHANGED <<i, v>>
    \/ /\ v = "new" /\ Len(hist) = MaxLen /\ v' = "out" /\ UNCHANGED <<i, hist, files, mine>>
       /\ PrintT("@@" \o ToJson(Scenario(i, hist)))

\* ---- judging ------------------------------------------------------------------
RECURSIVE RefPos(_, _, _)
RefPos(h, q, pos) == IF q > Len(h) THEN <<>> ELSE IF h[q].k = "ok" THEN <<pos>> \o RefPos(h, q + 1, pos + 3) ELSE <<0>> \o RefPos(h, q + 1, pos)
Said(a, b, abs) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : Close(a[q], D(b[q]), Tol(9), abs)
Same(a, b) == Len(a.v) = Len(b.v) /\ \A q \in 1..Len(a.v) : Close(a.v[q], b.v[q], Tol(9), Mul(Tol(9), Max2(Abs(b.v[1]), Tol(4))))
Hdr(x, f, geo, T) ==
    /\ Said(x.hdr.r1, f.r1, Zero) /\ Said(x.hdr.r2, f.r2, Zero) /\ Said(x.hdr.d, f.d, Tol(9)) /\ Said(x.hdr.l_offset, f.l_offset, Zero)
    /\ Said(x.hdr.deltaT, f.deltaT, Tol(4)) /\ Said(x.hdr.Tmax, f.Tmax, Tol(4)) /\ Said(x.hdr.precision, f.precision, Zero)
    /\ x.hdr.lmax = <<geo.v[1]>> /\ x.hdr.lssmax = <<geo.v[2]>> /\ x.hdr.nmax = <<T.v[1]>>
    /\ \A q \in 1..Len(x.said) : x.said[q] = 1
JobV(t, q, p) ==
    LET j == t.res[q]  h == t.hist[q] IN
    IF j.st = "raise" THEN "machinery-job"
    ELSE IF j.x.changed # <<>> THEN "existing-file-changed"
    ELSE IF j.x.lost # <<>> THEN "file-of-another-job-overwritten"
    ELSE IF h.k # "ok" THEN (IF j.x.rc # 1 THEN "invalid-job-succeeded" ELSE IF j.x.nval # 0 THEN "failed-job-wrote-data" ELSE "ok")
    ELSE IF t.res[p].st # "ok" \/ t.res[p + 1].st # "ok" \/ t.res[p + 2].st # "ok" THEN "reference-" \o h.k
    ELSE IF j.x.rc # 0 THEN "job-failed"
    ELSE IF Len(j.x.new) # 1 THEN "not-one-result-file"
    ELSE IF h.free = 1 /\ h.race = 0 /\ j.x.new[1] # h.out THEN "other-name-than-requested"
    ELSE IF ~Same(j, t.res[p + 2]) THEN "wrong-values"
    ELSE IF ~Hdr(j.x, t.fact[q], t.res[p], t.res[p + 1]) THEN "wrong-header"
    ELSE "ok"
Verdict(t) ==
    LET ps == TLCEval(RefPos(t.hist, 1, Len(t.hist) + 1))
        w == TLCEval([q \in 1..Len(t.hist) |-> JobV(t, q, ps[q])])
        bad == {q \in 1..Len(w) : w[q] # "ok"}
    IN  IF bad = {} THEN "ok" ELSE w[CHOOSE q \in bad : \A z \in bad : q <= z]
JInit == i \in 1..Len(Trace) /\ v = "new" /\ hist = <<>> /\ files = {} /\ mine = <<>>
JNext == v = "new" /\ UNCHANGED <<i, hist, files, mine>> /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
