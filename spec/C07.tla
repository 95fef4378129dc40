-------------------------------- MODULE C07 --------------------------------
(* The zero-frequency value of every projection and their sum is the limit  *)
(* k -> 0 of the finite-frequency value, in exterior and interior geometry. *)
EXTENDS RTJudge
CONSTANT Deep
VARIABLES i, v

R1s == <<10, 5, 20, 13, 7, 31, 3, 1, 60>>
R2s == <<10, 15, 8, 30, 6, 22, 4, 2, 90>>
Body0 == Body \o <<Nm("Gold_plasma_wp01"), Nm("SiC_plasma"), Nm("Silver"), Nm("MercurySmith_plasma"),
    \* two free-carrier oscillators, dissipative and not; plasma with a bound oscillator; plasma in front of magnet
    Usr(<<<<Dec(7, 14), Dec(5, 14), Dec(0, 0)>>, <<Dec(12, 14), Dec(0, 0), Dec(3, 14)>>>>, <<>>),
    Usr(<<<<Dec(7, 14), Dec(5, 14), Dec(1, 13)>>, <<Dec(9, 14), Dec(0, 0), Dec(0, 0)>>>>, <<>>),
    Usr(<<<<Dec(3, 14), Dec(0, 0), Dec(0, 0)>>, <<Dec(5, 14), Dec(0, 0), Dec(0, 0)>>>>, <<>>),
    Usr(<<<<Dec(4, 14), Dec(0, 0), Dec(2, 13)>>, <<Dec(6, 14), Dec(0, 0), Dec(0, 0)>>>>, <<Dec(3, 0), Dec(4, 14)>>),
    Usr(<<<<Dec(6, 14), Dec(2, 14), Dec(0, 0)>>, <<Dec(2, 14), Dec(0, 0), Dec(0, 0)>>>>, <<>>),
    Usr(<<<<Dec(9, 14), Dec(0, 0), Dec(1, 14)>>>>, <<Dec(6, 0), Dec(2, 14)>>),
    Usr(<<<<Dec(0, 0), Dec(3, 14), Dec(0, 0)>>, <<Dec(7, 14), Dec(4, 14), Dec(0, 0)>>>>, <<Dec(4, -1), Dec(2, 14)>>)>>
Scn(n) ==
    LET od == Orders(n, Deep)
        far == od.kind = "far"
        r1 == IF far THEN IntIn(n, 1, 1, 9) ELSE IF od.kind = "top" THEN IntIn(n, 1, 20, 45) ELSE Pick(n, 1, R1s)
        ext == Rnd(n, 11, 2) = 0
        sh == IF far THEN IntIn(n, 2, 1, 9) ELSE IntIn(n, 2, 1, 25)
        gap == IF far THEN (IF ext THEN 4 * (r1 + IntIn(n, 13, 1, 9)) ELSE 5 * (r1 + sh)) + IntIn(n, 3, 0, 20) ELSE IF od.kind = "top" THEN 1 ELSE IF od.kind = "hi" THEN IntIn(n, 3, 1, 3) ELSE IntIn(n, 3, 1, 20)
        r2 == IF ext THEN (IF far THEN IntIn(n, 13, 1, 9) ELSE IF od.kind = "top" THEN IntIn(n, 12, 20, 45) ELSE Pick(n, 2, R2s)) ELSE r1 + sh + gap
    IN  [r1 |-> <<Len10(r1)>>, r2 |-> <<Len10(r2)>>, L |-> Len10(IF ext THEN r1 + r2 + gap ELSE sh),
         m1 |-> <<Pick(n, 6, Body0)>>, m2 |-> <<Cyc(n, Body0)>>, m3 |-> Pick(n, 7, Medium),
         lmax |-> od.lmax, lss |-> od.lss, jl |-> od.jl,
         k |-> <<0, 0>>, prec |-> Dec(1, -30),
         ms |-> od.ms,
         total |-> od.total, steps |-> RTSteps0(od.total)]

Verdict(t) == RTVerdict(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
