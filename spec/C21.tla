-------------------------------- MODULE C21 --------------------------------
(* Numerical helpers.                                                       *)
EXTENDS Base
CONSTANT Deep
VARIABLES i, v

(* Families "deriv"   derivative of a polynomial on an equidistant grid     *)
(*          "power"   derivative of c x^p through interpolated data         *)
(*          "lfac", "dbl"  logarithms of n! and (2n-1)!!                    *)
(*          "interp"  interpolation of tabulated data                       *)
(*          "conv"    oscillator strengths and energies to frequencies      *)
(*          "drude"   extension of tabulated Drude data                     *)
Fam(n) == Cyc(n, <<"deriv", "lfac", "interp", "power", "deriv", "dbl", "interp", "drude", "deriv", "power", "conv">>)
PolyAt(c, x, q) == LET RECURSIVE Go(_) 
                       Go(z) == IF z > Len(c) THEN Zero ELSE Add(c[z], Mul(x, Go(z + 1)))
                   IN  Go(q)
P(c, x) == PolyAt(c, x, 1)
DP(c, x) == P([z \in 1..(Len(c) - 1) |-> MulI(c[z + 1], z)], x)
Grid(x0, h, N) == TLCEval([q \in 1..N |-> Add(D(x0), MulI(D(h), q - 1))])
\* an ascending table
RECURSIVE Asc(_, _, _, _)
Asc(n, j, x, N) == IF N = 0 THEN <<>> ELSE LET y == x + IntIn(n, 60 + j, 1, 12) IN <<Dec(y, -1)>> \o Asc(n, j + 1, y, N - 1)
Scn(n) ==
    LET fam == Fam(n) IN
    CASE fam = "deriv" ->
           LET N == IntIn(n, 1, 5, Deep + 8)
               deg == IntIn(n, 2, 0, 4)
               c == [z \in 1..(deg + 1) |-> Dec(IntIn(n, 20 + z, -50, 50), -1)]
               x0 == Dec(IntIn(n, 3, -40, 40), -1)
               h == Dec(IntIn(n, 4, 1, 20), Pick(n, 5, <<-1, -1, -2, 0>>))
               xs == Grid(x0, h, N)
           IN  [fam |-> fam, c |-> c, x0 |-> x0, h |-> h, N |-> N, deg |-> deg,
                steps |-> <<[op |-> "deriv", x |-> xs, f |-> [q \in 1..N |-> P(DSeq(c), xs[q])]]>>]
      [] fam = "power" ->
           LET N == IntIn(n, 1, 5, Deep + 8)
               p == IntIn(n, 2, 0, 4)
               h == Dec(IntIn(n, 4, 1, 20), -1)
               x0 == Dec(IntIn(n, 3, 1, 40), -1)
               xs == Grid(x0, h, N)
               cc == Dec(Pick(n, 6, <<3, -3, 7, -20>>), -1)
           IN  [fam |-> fam, p |-> p, x0 |-> x0, h |-> h, N |-> N, cc |-> cc,
                steps |-> <<[op |-> "deriv", x |-> xs, f |-> [q \in 1..N |-> Mul(D(cc), Pow(xs[q], p))], ip |-> TRUE]
                            @@ (IF Rnd(n, 7, 2) = 0 THEN [mult |-> IntIn(n, 8, 2, 12)] ELSE [ip |-> TRUE])>>]
      [] fam = "conv" ->
           [fam |-> fam, osc |-> [q \in 1..IntIn(n, 1, 1, 6) |-> <<Dec(IntIn(n, 20 + q, 0, 999), IntIn(n, 30 + q, -5, 0)), Dec(IntIn(n, 40 + q, 1, 999), IntIn(n, 50 + q, -5, 0))>>],
            steps |-> <<[op |-> "convert", tup |-> Rnd(n, 2, 2) = 0]>>]
      [] fam \in {"lfac", "dbl"} ->
           LET xs == [q \in 1..IntIn(n, 1, 1, 5) |-> Dec(IntIn(n, 30 + q, 0, Pick(n, 50 + q, IF fam = "lfac" THEN <<3, 40, 150, 600>> ELSE <<2, 20, 75, 300>>)), 0)] IN
           [fam |-> fam, xs |-> xs, steps |-> <<[op |-> IF fam = "lfac" THEN "lfac" ELSE "ln2dbl", x |-> IF Rnd(n, 2, 3) = 0 THEN xs[1] ELSE xs]>>]
      [] OTHER ->
           LET N == IntIn(n, 1, 3, Deep)
               x == Asc(n, 1, IntIn(n, 2, 1, 20), N)
               wp == Dec(IntIn(n, 3, 5, 60), -1)
               ga == Dec(IntIn(n, 4, 1, 30), -1)
               y == IF fam = "interp" THEN [q \in 1..N |-> D(Dec(IntIn(n, 30 + q, 1, 999), -2))]
                    ELSE [q \in 1..N |-> Add(One, Div(Sq(D(wp)), Mul(D(x[q]), Add(D(x[q]), D(ga)))))]
               lo == x[1][1]  hi == x[N][1]
               \* new abscissae in hundredths, ascending: below, on nodes, between, above
               xn == LET pts == {(lo * 10) + 3, x[2][1] * 10, (x[2][1] * 10) + IntIn(n, 5, 1, 9), (hi * 10) - 4}
                                \cup (IF Rnd(n, 6, 2) = 0 \/ fam = "drude" THEN {lo * 5, lo * 8} ELSE {})
                                \cup (IF Rnd(n, 7, 2) = 0 \/ fam = "drude" THEN {hi * 11, hi * 30} ELSE {})
                     IN  pts
               RECURSIVE Srt(_)
               Srt(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE a \in s : \A b \in s : a <= b IN <<Dec(m, -2)>> \o Srt(s \ {m})
           IN  [fam |-> fam, x |-> x, y |-> y, xn |-> Srt(xn), wp |-> wp, ga |-> ga,
                steps |-> <<[op |-> "interp", fn |-> IF fam = "interp" THEN "interpolate" ELSE "get_drude_data"]>>]

\* value of the table at z by linear interpolation
Lin(t, z) == LET q == CHOOSE q \in 1..(Len(t.x) - 1) : Le(D(t.x[q]), z) /\ Le(z, D(t.x[q + 1]))
                 x0 == D(t.x[q])  x1 == D(t.x[q + 1])
             IN  Add(t.y[q], Mul(Sub(t.y[q + 1], t.y[q]), Div(Sub(z, x0), Sub(x1, x0))))
RECURSIVE LnFac(_, _)
LnFac(n, acc) == IF n <= 1 THEN Ln(acc) ELSE LnFac(n - 1, MulI(acc, n))
RECURSIVE LnDbl(_, _)
LnDbl(n, acc) == IF n <= 1 THEN Ln(acc) ELSE LnDbl(n - 2, MulI(acc, n))
Verdict(t) ==
    LET r == t.res[1]
        w == r.v
    IN
    IF r.st # "ok" THEN "not-evaluated"
    ELSE IF r.mut = 1 THEN "arguments-modified"
    ELSE CASE t.fam = "deriv" ->
             LET c == DSeq(t.c)  xs == Grid(t.x0, t.h, t.N)
                 big == TLCEval(Add(Tol(6), Add(Abs(P(c, xs[1])), Add(Abs(P(c, xs[t.N])), Abs(P(c, xs[(t.N + 1) \div 2]))))))
                 ab == Div(Mul(Tol(11), big), D(t.h))
                 ok(q) == Close(w[q], DP(c, xs[q]), Tol(9), ab)
             IN  IF Len(w) # t.N THEN "shape"
                 ELSE IF \E q \in 3..(t.N - 2) : ~ok(q) THEN "interior"
                 ELSE IF t.deg <= 2 /\ (~ok(2) \/ ~ok(t.N - 1)) THEN "next-to-edge"
                 ELSE IF t.deg <= 1 /\ (~ok(1) \/ ~ok(t.N)) THEN "edge" ELSE "ok"
           [] t.fam = "power" ->
             LET xs == Grid(t.x0, t.h, t.N)
                 f(q) == IF t.p = 0 THEN Zero ELSE MulI(Mul(D(t.cc), Pow(xs[q], t.p - 1)), t.p)
                 ab == Div(Mul(Tol(10), Abs(Mul(D(t.cc), Pow(xs[t.N], t.p)))), D(t.h))
                 \* between the nodes the interpolation is exact for powers, so is the stencil up to rounding on the finer grid
                 ok(q) == Close(w[q], f(q), Tol(7), ab)
             IN  IF Len(w) # t.N THEN "shape"
                 ELSE IF \E q \in 2..(t.N - 1) : ~ok(q) THEN "interior"
                 ELSE IF t.p <= 1 /\ (~ok(1) \/ ~ok(t.N)) THEN "edge" ELSE "ok"
           [] t.fam = "conv" ->
             LET om == Div(D(Dec(160218, -24)), D(Dec(105457, -39)))
                 ok(q) == LET f == D(t.osc[q][1])  e == D(t.osc[q][2]) IN
                          /\ Close(w[(2 * q) - 1], Mul(Sqrt(f), Mul(e, om)), Tol(12), Zero)
                          /\ Close(w[2 * q], Mul(e, om), Tol(12), Zero)
             IN  IF r.sh # <<Len(t.osc), 2>> THEN "shape" ELSE IF \E q \in 1..Len(t.osc) : ~ok(q) THEN "converted-oscillators" ELSE "ok"
           [] t.fam \in {"lfac", "dbl"} ->
             LET a == t.xs IN
             IF \E q \in 1..Len(w) : ~Close(w[q], IF t.fam = "lfac" THEN LnFac(a[q][1], One) ELSE LnDbl((2 * a[q][1]) - 1, One), Tol(12), Tol(11))
             THEN "value" ELSE IF Len(w) \in {1, Len(a)} THEN "ok" ELSE "shape"
           [] OTHER ->
             LET xn == DSeq(t.xn)
                 lo == D(t.x[1])  hi == D(t.x[Len(t.x)])
                 inn(z) == Lt(lo, z) /\ Lt(z, hi)
                 ins == SelectSeq(xn, inn)
                 dr(z) == Add(One, Div(Sq(D(t.wp)), Mul(z, Add(z, D(t.ga)))))
             IN  IF t.fam = "interp"
                 THEN (IF Len(w) # Len(ins) THEN "shape"
                       ELSE IF \E q \in 1..Len(ins) : ~Close(w[q], Lin(t, ins[q]), Tol(10), Tol(10)) THEN "interpolated-value" ELSE "ok")
                 ELSE IF Len(w) # Len(xn) THEN "shape"
                 ELSE IF \E q \in 1..Len(xn) : inn(xn[q]) /\ ~Close(w[q], Lin(t, xn[q]), Tol(10), Tol(10)) THEN "interpolated-value"
                 ELSE IF \E q \in 1..Len(xn) : ~inn(xn[q]) /\ ~Close(w[q], dr(xn[q]), Tol(5), Tol(6)) THEN "extrapolated-value"
                 ELSE "ok"
GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
