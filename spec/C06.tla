-------------------------------- MODULE C06 --------------------------------
(* Sphere inside a spherical cavity: the value of every projection and their sum.   *)
(* Two families of scenarios: complete m-sums at orders <= Deep, and single *)
(* high projections (small matrices built from high multipole orders).      *)
EXTENDS RTJudge
CONSTANT Deep
VARIABLES i, v

R1s == <<10, 5, 20, 13, 7, 16, 3, 1, 60>>
Ks  == <<Dec(1, 0), Dec(3, -1), Dec(7, -2), Dec(2, 0), Dec(12, -1), Dec(5, -3), Dec(35, -1), Dec(1, -4), Dec(8, 0),
         Dec(45, -1), Dec(2, -1), Dec(6, -1)>>
Kfar == <<Dec(1, 0), Dec(3, -1), Dec(7, -2), Dec(5, -3), Dec(1, -4), Dec(2, -1), Dec(6, -1)>>
Khi == Ks \o <<Dec(2, 1), Dec(5, 1), Dec(14, 0)>>
Scn(n) ==
    LET od == Orders(n, Deep)
        far == od.kind = "far"
        r1 == IF far THEN IntIn(n, 1, 1, 9) ELSE IF od.kind = "top" THEN IntIn(n, 1, 20, 45) ELSE Pick(n, 1, R1s)
        sh == IF far THEN IntIn(n, 2, 1, 9) ELSE IntIn(n, 2, 1, 25)                        \* displacement of the centres
        gap == IF far THEN 5 * (r1 + sh) + IntIn(n, 3, 0, 20) ELSE IF od.kind = "top" THEN 1 ELSE IF od.kind = "hi" THEN IntIn(n, 3, 1, 3) ELSE IntIn(n, 3, 1, 20)
        r2 == r1 + sh + gap
    IN  [r1 |-> <<Len10(r1)>>, r2 |-> <<Len10(r2)>>, L |-> Len10(sh),
         m1 |-> <<Pick(n, 6, Body)>>, m2 |-> <<Cyc(n, Body)>>, m3 |-> Pick(n, 7, Medium),
         lmax |-> od.lmax, lss |-> od.lss, jl |-> od.jl,
         k |-> IF far THEN Pick(n, 9, Kfar) ELSE Pick(n, 9, IF gap < 4 THEN Khi ELSE Ks), prec |-> Dec(1, -30),
         ms |-> od.ms,
         total |-> od.total, steps |-> RTSteps(od.total)]

Verdict(t) == RTVerdict(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
