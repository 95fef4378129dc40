-------------------------------- MODULE C13 --------------------------------
(* Balancing and block-matrix algebra on recorded results of the code.      *)
EXTENDS Base
CONSTANT Deep
VARIABLES i, v

Ent(n, j, z) == LET k == Rnd(n, j, 10) IN
    IF k < z THEN Dec(0, 0)
    ELSE Dec((IF Rnd(n, j + 3000, 2) = 0 THEN 1 ELSE -1) * IntIn(n, j + 6000, 1, 999), IntIn(n, j + 9000, -2, 2))
\* structured matrices for balancing
Kinds == <<"random", "scaled", "triangular", "permuted", "zerorow", "zerocol", "diag", "graded", "sparse", "zero">>
MatFor(n, kind, sz) ==
    [a \in 1..sz |-> [b \in 1..sz |->
        LET j == 50 * a + b
            e == Ent(n, j, 0)
            s == Ent(n, j, 6)
            sh(x, p) == IF x[1] = 0 THEN x ELSE Dec(x[1], x[2] + p)
            d == [q \in 1..sz |-> Pick(n, 20 + q, <<-30, -9, -3, 0, 0, 2, 7, 40>>)]
        IN  CASE kind = "random" -> e
              [] kind = "scaled" -> sh(e, d[a] - d[b])
              [] kind = "triangular" -> IF b < a THEN Dec(0, 0) ELSE sh(e, Pick(n, 20 + b, <<0, 3, 10, -20>>))
              [] kind = "permuted" -> IF (b % sz) + 1 = a THEN sh(e, d[a]) ELSE Dec(0, 0)
              [] kind = "zerorow" -> IF a = 1 + Rnd(n, 40, sz) THEN Dec(0, 0) ELSE sh(e, d[b])
              [] kind = "zerocol" -> IF b = 1 + Rnd(n, 41, sz) THEN Dec(0, 0) ELSE sh(e, d[a])
              [] kind = "diag" -> IF a = b THEN e ELSE Dec(0, 0)
              [] kind = "graded" -> sh(e, 3 * (a - b))
              [] kind = "sparse" -> sh(s, d[a])
              [] OTHER -> Dec(0, 0)]]
ScnBal(n) ==
    LET sz == Pick(n, 1, <<1, 2, 2, 3, 3, 4, 5, Deep>>)
    IN  [fam |-> "balance", sz |-> sz, A |-> MatFor(n, Pick(n, 2, Kinds), sz), conv |-> Pick(n, 3, <<Dec(9, -1), Dec(95, -2), Dec(6, -1)>>),
         steps |-> <<[op |-> "balance"]>>]

\* well conditioned matrices: diagonal dominance
Small(n, j) == Dec((IF Rnd(n, j, 2) = 0 THEN 1 ELSE -1) * IntIn(n, j + 3000, 0, 999), -4)
Mx(n, tag, r, c) == [a \in 1..r |-> [b \in 1..c |-> Small(n, tag + 20 * a + b)]]
Dom(n, tag, sz) == [a \in 1..sz |-> [b \in 1..sz |->
    IF a = b THEN Dec((IF Rnd(n, tag + 7000 + a, 2) = 0 THEN 1 ELSE -1) * IntIn(n, tag + 8000 + a, 10, 30), -1) ELSE Small(n, tag + 20 * a + b)]]
Stack(n, tag, ns, sz, f(_, _, _)) == [s \in 1..ns |-> f(n, tag + 500 * s, sz)]
Sq1(n, tag, sz) == Mx(n, tag, sz, sz)
LogEnt(n, j) == Dec(IntIn(n, j, -4000, 4000), -2)
\* the same operator in badly scaled units: the second half of the basis is 10^pw times the first
Shift(x, q) == [a \in 1..Len(x) |-> [b \in 1..Len(x[a]) |-> IF x[a][b][1] = 0 THEN x[a][b] ELSE Dec(x[a][b][1], x[a][b][2] + q)]]
Upper(a, n) == IF a > n \div 2 THEN 1 ELSE 0
Badly(x, q) == [a \in 1..Len(x) |-> [b \in 1..Len(x) |-> IF x[a][b][1] = 0 THEN x[a][b]
                   ELSE Dec(x[a][b][1], x[a][b][2] + (q * (Upper(b, Len(x)) - Upper(a, Len(x)))))]]
Fns == <<"sln_det_3d", "sln_det_blockdiagonal", "balanced_slogdet", "inv_3d_blockmatrix", "inv_3d_matrix", "dot_3d_matrices",
         "trace_dot_3d", "matrix_append", "single_k_scale", "dynamic_scaling">>
ScnAlg(n) ==
    LET fn == Fns[1 + ((n \div 2) % Len(Fns))]
        ns == Pick(n, 1, <<1, 1, 2, 2, 3, 3, 4, 5, 7>>)
        sz == Pick(n, 2, <<1, 2, 2, 3, 3, 4>>)
        h2 == 2 * Pick(n, 3, <<1, 1, 2, 2, 3>>)
        pw == Pick(n, 8, <<0, 0, 0, -7, 7, -3, 5>>)
        sq(tag) == Stack(n, tag, ns, sz, Sq1)
        sqs(tag, q) == [s \in 1..ns |-> Shift(sq(tag)[s], q)]
        stk(x) == [s \in 1..ns |-> Badly(x[s], pw)]
        args == CASE fn \in {"sln_det_3d", "matrix_append"} -> <<sq(1), sqs(3001, pw), sqs(6001, -pw), sq(9001)>>
                  [] fn = "sln_det_blockdiagonal" -> <<Badly(Mx(n, 1, sz, sz), pw), Badly(Mx(n, 3001, sz, sz), pw)>>
                  [] fn = "balanced_slogdet" -> <<stk(Stack(n, 1, ns, sz, Sq1))>>
                  [] fn = "inv_3d_blockmatrix" -> <<stk(Stack(n, 1, ns, h2, Dom))>>
                  [] fn = "inv_3d_matrix" -> <<Stack(n, 1, ns, sz, Dom)>>
                  [] fn = "dot_3d_matrices" -> <<[s \in 1..ns |-> Mx(n, 500 * s, sz, IntIn(n, 4, 1, 3))],
                                                 [s \in 1..ns |-> Mx(n, 9000 + 500 * s, IntIn(n, 4, 1, 3), IntIn(n, 5, 1, 3))]>>
                  [] fn = "trace_dot_3d" -> <<stk(Stack(n, 1, ns, h2, Sq1)), stk(Stack(n, 4001, ns, h2, Sq1))>>
                  [] fn = "single_k_scale" -> <<[a \in 1..sz |-> [b \in 1..sz |-> [c \in 1..(1 + Rnd(n, 6, 3)) |-> LogEnt(n, 100 * a + 10 * b + c)]]]>>
                  [] OTHER -> <<[s \in 1..ns |-> [a \in 1..sz |-> [b \in 1..sz |-> [c \in 1..(1 + Rnd(n, 6, 3)) |->
                                    LogEnt(n, 1000 * s + 100 * a + 10 * b + c)]]]]>>
    IN  [fam |-> "alg", fn |-> fn, pw |-> IF fn = "inv_3d_blockmatrix" THEN pw ELSE 0, args |-> args, steps |-> <<[op |-> "alg", aslist |-> fn = "matrix_append"]>>]
Scn(n) == IF n % 2 = 0 THEN ScnAlg(n) ELSE ScnBal(n)

(* --- balancing ------------------------------------------------------------ *)
\* integer p with r = 2^p up to the accuracy of the encoding of doubles; 99999 if there is none
Log2(r) == LET q == Div(Ln(r), Ln2)
               p == Trunc(IF q[1] < 0 THEN Sub(q, Half) ELSE Add(q, Half))
               back == IF p >= 0 THEN Div(r, Pow(Two, p)) ELSE Mul(r, Pow(Two, -p))
           IN  IF Lt(Abs(Sub(back, One)), Tol(23)) THEN p ELSE 99999
None == 88888
RECURSIVE Potentials(_, _, _)
\* potentials d with P[a][b] = d[b] - d[a] along the pattern of non-zero entries E
Potentials(P, E, d) ==
    LET N == DOMAIN d
        open == {e \in E : (d[e[1]] = None) # (d[e[2]] = None)}
    IN  IF open # {}
        THEN LET e == CHOOSE e \in open : TRUE
             IN  Potentials(P, E, IF d[e[1]] = None THEN [d EXCEPT ![e[1]] = d[e[2]] - P[e[1]][e[2]]]
                                  ELSE [d EXCEPT ![e[2]] = d[e[1]] + P[e[1]][e[2]]])
        ELSE IF \E q \in N : d[q] = None THEN Potentials(P, E, [d EXCEPT ![CHOOSE q \in N : d[q] = None] = 0])
        ELSE d
VerdictBal(t) ==
    LET r == t.res[1]
        sz == t.sz
        A(a, b) == r.v[(a - 1) * sz + b]
        X(a, b) == r.v[sz * sz + (a - 1) * sz + b]
        N == 1..sz
        E == {e \in N \X N : e[1] # e[2] /\ ~IsZero(A(e[1], e[2]))}
        P == TLCEval([a \in N |-> TLCEval([b \in N |-> IF <<a, b>> \in E
                 THEN LET q == Div(X(a, b), A(a, b)) IN IF q[1] <= 0 THEN 99999 ELSE Log2(q) ELSE 0])])
        d == TLCEval(Potentials(P, E, [q \in N |-> None]))
        col(q) == Sum([a \in N |-> IF a = q THEN Zero ELSE Sq(X(a, q))])
        row(q) == Sum([a \in N |-> IF a = q THEN Zero ELSE Sq(X(q, a))])
    IN  IF r.st = "timeout" THEN "does-not-terminate"
        ELSE IF r.st # "ok" \/ r.sh # <<2, sz, sz>> THEN "not-evaluated"
        ELSE IF \E a \in N : X(a, a) # A(a, a) THEN "diagonal"
        ELSE IF \E a, b \in N : IsZero(A(a, b)) # IsZero(X(a, b)) THEN "zero-pattern"
        ELSE IF \E e \in E : P[e[1]][e[2]] = 99999 THEN "not-a-power-of-two"
        ELSE IF \E e \in E : P[e[1]][e[2]] # d[e[2]] - d[e[1]] THEN "not-a-similarity"
        ELSE IF \E q \in N : LET c == col(q) w == row(q) IN
                ~IsZero(c) /\ ~IsZero(w) /\ (Gt(c, MulI(w, 16)) \/ Gt(w, MulI(c, 16))) THEN "rows-and-columns-not-comparable"
        ELSE "ok"

(* --- algebra --------------------------------------------------------------- *)
M2(x) == TLCEval([a \in 1..Len(x) |-> TLCEval([b \in 1..Len(x[a]) |-> D(x[a][b])])])
Prod(x, y) == TLCEval([a \in 1..Len(x) |-> TLCEval([b \in 1..Len(y[1]) |-> Sum([c \in 1..Len(y) |-> Mul(x[a][c], y[c][b])])])])
Joined(p, q, r, s) == LET n == Len(p) IN
    [a \in 1..(2 * n) |-> [b \in 1..(2 * n) |-> IF a <= n THEN (IF b <= n THEN p[a][b] ELSE q[a][b - n])
                                               ELSE IF b <= n THEN r[a - n][b] ELSE s[a - n][b - n]]]
LnDet1(x) == Ln(Abs(Det(IdMinus(x))))
Minor(x, p, q) == [a \in 1..(Len(x) - 1) |-> [b \in 1..(Len(x) - 1) |-> x[IF a < p THEN a ELSE a + 1][IF b < q THEN b ELSE b + 1]]]
InvM(x) == LET n == Len(x)
               dt == TLCEval(Det(x)) IN
    TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> SMul(SgnPow(a + b), Div(IF n = 1 THEN One ELSE Det(TLCEval(Minor(x, b, a))), dt))])])
Flat2(x) == [q \in 1..(Len(x) * Len(x[1])) |-> x[1 + ((q - 1) \div Len(x[1]))][1 + ((q - 1) % Len(x[1]))]]
RECURSIVE FlatAll(_, _)
FlatAll(xs, q) == IF q > Len(xs) THEN <<>> ELSE Flat2(xs[q]) \o FlatAll(xs, q + 1)
\* reference of fn as flat sequence
Ref(fn, g) ==
    LET ns == Len(g[1])
        st(j) == TLCEval([s \in 1..ns |-> M2(g[j][s])])
    IN CASE fn = "sln_det_3d" -> LET p == st(1) q == st(2) r == st(3) s == st(4) IN
                                 [u \in 1..ns |-> LnDet1(Joined(p[u], q[u], r[u], s[u]))]
         [] fn = "matrix_append" -> LET p == st(1) q == st(2) r == st(3) s == st(4) IN
                                 FlatAll([u \in 1..ns |-> Joined(p[u], q[u], r[u], s[u])], 1)
         [] fn = "sln_det_blockdiagonal" -> <<Add(LnDet1(M2(g[1])), LnDet1(M2(g[2])))>>
         [] fn = "balanced_slogdet" -> LET p == st(1) IN [u \in 1..ns |-> LnDet1(p[u])]
         [] fn \in {"inv_3d_blockmatrix", "inv_3d_matrix"} -> LET p == st(1) IN FlatAll([u \in 1..ns |-> InvM(p[u])], 1)
         [] fn = "dot_3d_matrices" -> LET p == st(1) q == st(2) IN FlatAll([u \in 1..ns |-> Prod(p[u], q[u])], 1)
         [] OTHER -> LET p == st(1) q == st(2) IN
                     [u \in 1..ns |-> LET w == Prod(InvM(IdMinus(p[u])), q[u]) IN Sum([a \in 1..Len(w) |-> w[a][a]])]
\* a rescaling of logarithms is the similarity x[a][b][c] + d[a] - d[b]; lg maps the returned number to a logarithm
ScaleBad(x, out(_, _, _), lg(_)) ==
    LET n == Len(x)
        del(a, b, c) == Sub(lg(out(a, b, c)), D(x[a][b][c]))
        dd == TLCEval([a \in 1..n |-> Sub(del(a, 1, 1), del(1, 1, 1))])
    IN  \E a, b \in 1..n : \E c \in 1..Len(x[1][1]) :
            ~Close(del(a, b, c), Sub(dd[a], dd[b]), Zero, Tol(9))
Ident(y) == y
VerdictAlg(t) ==
    LET r == t.res[1]
        g == t.args
        nc == Len(g[1][1][1])
    IN  IF r.st # "ok" THEN "not-evaluated"
        ELSE IF r.mut = 1 THEN "arguments-modified"
        ELSE IF t.fn = "single_k_scale"
        THEN LET n == Len(g[1])
                 o(a, b, c) == r.v[((a - 1) * n + b - 1) * nc + c]
             IN  IF r.sh # <<n, n, nc>> THEN "shape"
                 ELSE IF ScaleBad(g[1], o, Ident) THEN "rescaling-not-a-similarity" ELSE "ok"
        ELSE IF t.fn = "dynamic_scaling"
        THEN LET n == Len(g[1][1])
                 k == Len(g[1][1][1][1])
                 o(s, a, b, c) == r.v[(((s - 1) * n + a - 1) * n + b - 1) * k + c]
             IN  IF r.sh # <<Len(g[1]), n, n, k>> THEN "shape"
                 ELSE IF \E q \in 1..Len(r.v) : r.v[q][1] <= 0 THEN "rescaling-not-positive"
                 ELSE IF \E s \in 1..Len(g[1]) : LET os(a, b, c) == o(s, a, b, c) IN ScaleBad(g[1][s], os, Ln)
                      THEN "rescaling-not-a-similarity" ELSE "ok"
        ELSE IF t.fn = "inv_3d_blockmatrix"
        THEN LET n == Len(g[1][1])
                 w == TLCEval(Ref(t.fn, g))
                 pos(q) == (q - 1) % (n * n)
                 ab(q) == D(Dec(1, (t.pw * (Upper(1 + (pos(q) % n), n) - Upper(1 + (pos(q) \div n), n))) - 9))
             IN  IF Len(r.v) = Len(w) /\ \A q \in 1..Len(w) : Close(r.v[q], w[q], Tol(7), ab(q)) THEN "ok" ELSE t.fn
        ELSE IF ~AllClose(r.v, Ref(t.fn, g), Tol(9), Tol(9)) THEN t.fn ELSE "ok"
Verdict(t) == IF t.fam = "balance" THEN VerdictBal(t) ELSE VerdictAlg(t)

GInit == i \in 1..NScn /\ v = "new"
GNext == v = "new" /\ PrintT("@@" \o ToJson(Scn(i))) /\ v' = "out" /\ UNCHANGED i
JInit == i \in 1..Len(Trace) /\ v = "new"
JNext == v = "new" /\ UNCHANGED i /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
