------------------------------ MODULE GeoGen ------------------------------
(* Geometries for behaviours that are not about one particular value:       *)
(* solid and layered spheres, side by side or one inside the other.         *)
EXTENDS RTJudge

\* layered = TRUE allows spheres of two layers
GeoG(n, hi, layered) ==
    LET ext == Rnd(n, 902, 3) # 0
        r1 == IntIn(n, 903, 3, 20)
        r2 == IntIn(n, 904, 3, 20)
        sm == IF r1 < r2 THEN r1 ELSE r2
        gap == 1 + (sm \div 3) + IntIn(n, 905, 0, 20)
        disp == IntIn(n, 906, 2, 15)
        lmax == IntIn(n, 907, 1, hi)
        lay1 == layered /\ Rnd(n, 913, 2) = 0
        lay2 == layered /\ ext /\ (~lay1 \/ Rnd(n, 914, 2) = 0)
        core(r) == IF r = 3 THEN 2 ELSE r - 1 - Rnd(n, 915, r - 2)
        outer2 == IF ext THEN r2 ELSE r1 + disp + gap
    IN  [ext |-> ext,
         r1 |-> IF lay1 THEN <<Len10(core(r1)), Len10(r1)>> ELSE <<Len10(r1)>>,
         r2 |-> IF lay2 THEN <<Len10(core(r2)), Len10(r2)>> ELSE <<Len10(outer2)>>,
         L |-> IF ext THEN Len10(r1 + r2 + gap) ELSE Len10(disp),
         m1 |-> IF lay1 THEN <<Pick(n, 908, Body), Pick(n, 916, NonPec)>> ELSE <<Pick(n, 908, Body)>>,
         m2 |-> IF lay2 THEN <<Pick(n, 909, Body), Pick(n, 917, NonPec)>> ELSE <<Pick(n, 909, Body)>>,
         m3 |-> Pick(n, 910, Medium), lmax |-> lmax, lss |-> lmax + IntIn(n, 911, 0, 2)]
IsLayered(t) == Len(t.r1) > 1 \/ Len(t.r2) > 1
=============================================================================
