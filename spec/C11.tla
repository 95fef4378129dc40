-------------------------------- MODULE C11 --------------------------------
(* Logarithms of the modified spherical Bessel functions and the ratios     *)
(* i_l / i_{l+1}, for arrays of arguments in arbitrary order.               *)
EXTENDS Base
CONSTANT Deep
VARIABLES i, v

Fns == <<"lnik", "lnk", "miebes", "trbes", "ifrac", "lnik">>
\* one argument: small, series/closed-form boundary, moderate, fraction-length boundary, large
Xs == <<Dec(1, -8), Dec(37, -5), Dec(999, -6), Dec(1, -3), Dec(1001, -6), Dec(15, -3), Dec(2, -1), Dec(1, 0), Dec(7, 0),
        Dec(33, 0), Dec(99, 0), Dec(101, 0), Dec(350, 0), Dec(999, 0), Dec(1001, 0), Dec(4500, 0), Dec(7, -25),
        Dec(5, -2), Dec(64, 0), Dec(22, 3), Dec(3, -12), Dec(13, 0), Dec(2, 5)>>
\* half of the arguments are drawn continuously
Arg(n, j) == IF Rnd(n, 100 + j, 2) = 0 THEN Pick(n, j, Xs)
             ELSE Dec(IntIn(n, 200 + j, 1, 9999), IntIn(n, 300 + j, -9, 0))
Scn(n) ==
    LET f == Fns[1 + (n % Len(Fns))]
        far == n % 17 = 7                       \* a few very high orders
        nx == IF far THEN 1 ELSE IntIn(n, 1, 1, 4)
        lmax == IF far THEN IntIn(n, 8, 100, 220) ELSE Pick(n, 2, <<0, 1, 2, 3, 5, 8, 13, 20, 30, IntIn(n, 6, 0, Deep), IntIn(n, 7, 30, Deep)>>)
        lmin == IF lmax = 0 THEN 0 ELSE IntIn(n, 3, 0, lmax)
    IN  [fn |-> f, x |-> IF far THEN <<Pick(n, 9, SubSeq(Xs, 1, 13))>> ELSE [j \in 1..nx |-> Arg(n, 10 + j)], lmax |-> lmax, lmin |-> lmin, ext |-> Rnd(n, 4, 2),
         ls |-> [j \in 1..IntIn(n, 5, 1, 3) |-> IntIn(n, 20 + j, 0, lmax)],
         steps |-> <<[op |-> f]>>]

\* admissible deviation of a logarithm; just above the series threshold 10^-3 the closed form of i_1 is a
\* difference of nearly equal numbers, with rounding error of order 10^-16 / x^3
TolI(l, x, w) == Add(Add(Tol(9), Mul(Tol(12), Abs(w))),
                     IF l = 1 /\ Ge(x, TenPow(-3)) /\ Lt(x, One) THEN Div(Mul(I(3), Tol(15)), Pow(x, 3)) ELSE Zero)
TolK(w) == Add(Tol(9), Mul(Tol(12), Abs(w)))

Verdict(t) ==
    LET r == t.res[1]
        nx == Len(t.x)
        lo == IF t.fn = "miebes" THEN t.lmin ELSE 0
        nl == t.lmax - lo + 1
        xs == DSeq(t.x)
        it == TLCEval([q \in 1..nx |-> TLCEval(ISeq(xs[q], t.lmax + 1))])
        kt == TLCEval([q \in 1..nx |-> TLCEval(KSeq(xs[q], t.lmax))])
        li(q, l) == Ln(it[q][l + 1])
        lk(q, l) == Ln(kt[q][l + 1])
        okI(val, q, l) == LET w == li(q, l) IN Le(Abs(Sub(val, w)), TolI(l, xs[q], w))
        okK(val, q, l) == LET w == lk(q, l) IN Le(Abs(Sub(val, w)), TolK(w))
        both == t.fn \in {"lnik", "miebes"}
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF both THEN
            IF r.sh # <<2, nx, nl>> THEN "range-of-orders"
            ELSE IF \E q \in 1..nx : \E l \in lo..t.lmax : ~okI(r.v[(q - 1) * nl + l - lo + 1], q, l) THEN "ln-i"
            ELSE IF \E q \in 1..nx : \E l \in lo..t.lmax : ~okK(r.v[nx * nl + (q - 1) * nl + l - lo + 1], q, l) THEN "ln-k"
            ELSE "ok"
        ELSE IF t.fn = "ifrac" THEN
            IF r.sh # <<Len(t.ls), nx>> THEN "range-of-orders"
            ELSE IF \E q \in 1..nx : \E p \in 1..Len(t.ls) :
                 ~Close(r.v[(p - 1) * nx + q], Div(it[q][t.ls[p] + 1], it[q][t.ls[p] + 2]), Tol(9), Zero) THEN "ratio"
            ELSE "ok"
        ELSE IF r.sh # <<nx, nl>> THEN "range-of-orders"
        ELSE IF t.fn = "lnk" \/ t.ext = 1 THEN
            IF \E q \in 1..nx : \E l \in 0..t.lmax : ~okK(r.v[(q - 1) * nl + l + 1], q, l) THEN "ln-k" ELSE "ok"
        ELSE IF \E q \in 1..nx : \E l \in 0..t.lmax : ~okI(r.v[(q - 1) * nl + l + 1], q, l) THEN "ln-i" ELSE "ok"

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
