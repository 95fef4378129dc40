---- MODULE NumTest ----
EXTENDS Num
VARIABLE i
Init == i = 0
Next == i < 2000 /\ i' = i + 1
T(k) == Exp(Q(k, 7))
Inv1 == LET a == Q(i + 1, 13) IN Close(Ln(Exp(a)), a, TenPow(-20), TenPow(-22))
Inv2 == LET a == Q(i + 1, 17) IN Close(Sq(Sqrt(a)), a, TenPow(-20), Zero) /\ Close(Mul(Inv(a), a), One, TenPow(-20), Zero)
Spec == Init /\ [][Next]_i
ASSUME PrintT(<<Exp(One), Ln(Two), Ln(I(10000)), Sqrt(Two), Div(One, I(7)), Exp(Q(-1000,3)), Ln(Q(1,3))>>)
====
