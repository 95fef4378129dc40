-------------------------------- MODULE C01 --------------------------------
(***************************************************************************)
(* Session: a geometry g; p, the same spheres at another distance; q, with *)
(* one other parameter changed; thermodynamics objects t on g, u on p or q *)
(* with the parameters of t, and w on g with another base temperature; and *)
(* two arrays K1, K2 owned by the caller.                                  *)
(*                                                                         *)
(* State of the specification: the contents of the caller's arrays.  The   *)
(* objects have no state that a user can see: the value of an evaluation   *)
(* is a function of the parameters of the object and of the current        *)
(* contents of the array.  Next chooses an arbitrary action; TLC           *)
(* enumerates all histories up to length Deep for the first NExh           *)
(* geometries, and one long pseudo-random history for each other one.      *)
(* A history is replayed on one set of objects; then every evaluation is   *)
(* replayed on freshly constructed ones, in a process in which nothing has *)
(* been computed before ("iso"), and the judge compares.                   *)
(***************************************************************************)
EXTENDS GeoGen
CONSTANTS Deep, NExh, Long
VARIABLES i, v, hist, ar

\* arrays: contents is an index into the alphabet of contents
Cont(n, c) ==
    LET tiny == n % 4 = 2          \* wavenumbers around 1e-9
        k(j) == Dec(IntIn(n, 100 + j, 1, 40), IF tiny THEN -10 ELSE Pick(n, 120 + j, <<-1, -1, -2>>))
        a == k(1)  b == k(2)
        near(x) == Dec((x[1] * 1000000) + 3, x[2] - 6)      \* almost the same wavenumber
        e == Dec(IntIn(n, 109, 41, 60), a[2])
    IN  CASE c = 1 -> <<a, b, e>>
          [] c = 2 -> IF n % 2 = 0 THEN <<b, e, a>> ELSE <<a, k(3), e>>      \* another order, or the same ends
          [] c = 3 -> IF n % 4 \in {1, 3} THEN <<near(a), near(b), e>> ELSE <<k(3), b, k(5)>>
          [] OTHER -> <<k(4)>>

\* an action: name, object, array (or ""), and a small parameter
Act(a, o, k, m) == [a |-> a, o |-> o, k |-> k, m |-> m]
Eval == <<Act("msum", "g", "K1", 0), Act("msum", "g", "K2", 0), Act("msum", "p", "K1", 0), Act("single", "g", "K1", 1), Act("single", "g", "K1", 9),
          Act("single", "g", "K2", 0), Act("msum0", "g", "", 0), Act("single0", "g", "", 9), Act("rounds", "g", "K1", 2), Act("oneround", "g", "K2", 0),
          Act("super", "g", "K1", 1), Act("free_energy", "t", "", 0), Act("fmats", "t", "", 2), Act("entropy", "t", "", 0), Act("e0", "t", "", 0),
          Act("single0", "g", "", 0), Act("msum", "q", "K1", 0), Act("free_energy", "u", "", 0), Act("entropy", "w", "", 0)>>
\* actions whose own result is not judged: changing an array, overwriting the lists given at construction or the arrays returned
\* so far, and attempts that fail
Other == <<Act("set", "", "K1", 2), Act("set", "", "K1", 3), Act("set", "", "K1", 1), Act("force", "t", "", 0), Act("limit", "g", "", 0),
           Act("badk", "g", "", 0), Act("scramble", "g", "", 0), Act("scribble", "", "", 0)>>
Acts == Eval \o Other
IsEval(x) == \E q \in 1..Len(Eval) : Eval[q] = x

\* ---- the state machine -----------------------------------------------------
Effect(x, s) == IF x.a = "set" THEN [s EXCEPT ![x.k] = x.m] ELSE s
GInit == /\ i \in 1..NScn
         /\ v = "new"
         /\ hist = <<>>
         /\ ar = [K1 |-> 1, K2 |-> 4]
Do(x) == /\ hist' = Append(hist, [x |-> x, c |-> IF x.k = "" THEN 0 ELSE ar[x.k]])
         /\ ar' = Effect(x, ar)
MaxLen == IF i <= NExh THEN Deep ELSE Long

\* ---- a history as calls on the implementation --------------------------------
Geo(n) ==
    LET lay == n % 3 = 0
        g == GeoG(n, 3, lay)
        lim == [name |-> "", kind |-> "limited", e |-> <<<<Dec(8, 14), Dec(4, 14), Dec(1, 14)>>>>, b |-> <<>>, kmax |-> Dec(2, 2)]
        wide == IF Len(g.m2) = 1 /\ n % 2 = 0 THEN [g EXCEPT !.m2 = <<lim>>] ELSE g
        pr == Pick(n, 130, <<Dec(1, -12), Dec(1, -4)>>)
    IN  IF n % 7 = 3       \* coated spheres have their own class
        THEN LET r(j) == IntIn(n, 160 + j, 4, 12) IN
             [gop |-> "coated", ext |-> TRUE, prec |-> pr, eval |-> "lndet", lmax |-> IntIn(n, 165, 1, 3), lss |-> IntIn(n, 165, 1, 3), m3 |-> g.m3,
              r1 |-> <<Len10(r(1) - 2), Len10(r(1))>>, r2 |-> <<Len10(r(2) - 1), Len10(r(2))>>, L |-> Len10(r(1) + r(2) + IntIn(n, 166, 3, 20)),
              m1 |-> <<Pick(n, 167, NonPec), Pick(n, 168, NonPec)>>, m2 |-> <<Pick(n, 169, NonPec), IF n % 2 = 0 THEN lim ELSE Pick(n, 170, NonPec)>>]
        ELSE [gop |-> "geom", prec |-> pr, eval |-> Pick(n, 131, <<"lndet", "lndet", "lndet", "trace">>)] @@ wide
M(n, x) == IF x.m = 9 THEN Geo(n).lmax ELSE x.m
IsT(o) == o \in {"t", "u", "w"}
\* w has another base temperature
TRec(n, as, o, h) == [op |-> "T", as |-> as, g |-> o, dT |-> Dec((IntIn(n, 140, 1, 9) * 10) + h, -2), nmax |-> IntIn(n, 141, 1, 5),
                   Tmax |-> Dec(4 * IntIn(n, 140, 1, 9), -1), an0 |-> Rnd(n, 142, 3) # 0]
Call(n, x, o, k) ==
    CASE x.a \in {"msum"} -> [op |-> x.a, o |-> o, k |-> k]
      [] x.a = "single" -> [op |-> "single", o |-> o, k |-> k, m |-> M(n, x)]
      [] x.a = "super" -> [op |-> "super", o |-> o, k |-> k, m |-> x.m]
      [] x.a = "single0" -> [op |-> "single0", o |-> o, m |-> M(n, x)]
      [] x.a = "rounds" -> [op |-> "rounds", o |-> o, k |-> k, order |-> x.m]
      [] x.a = "oneround" -> [op |-> "oneround", o |-> o, k |-> k]
      [] x.a = "fmats" -> [op |-> "fmats", o |-> o, step |-> x.m]
      [] x.a = "e0" -> [op |-> "e0", o |-> o, a |-> Dec(5, -1), b |-> Dec(1, 0)]
      [] x.a = "set" -> [op |-> "setarr", o |-> "K1", v |-> Cont(n, x.m)]
      [] x.a = "limit" -> [op |-> "msum", o |-> o, k |-> <<Dec(3, 2), Dec(1, -1)>>]
      [] x.a = "badk" -> [op |-> "badk", o |-> o, what |-> Pick(n, 150, <<"text", "none", "empty">>)]
      [] OTHER -> [op |-> x.a, o |-> o]
\* p: the same spheres a little further apart
GP(n) == LET g == Geo(n) IN [op |-> g.gop, as |-> "p", L |-> IF g.ext THEN Dec(g.L[1] + 7, -1) ELSE Dec(g.L[1] - 1, -1)]
\* q: differs from g in one parameter
GQ(n) == LET g == Geo(n)
             other(ms, tag) == [z \in 1..Len(ms) |-> Pick(n, tag + z, NonPec)]
             w == (n + (n \div 5)) % 5
         IN  [op |-> g.gop, as |-> "q"]
             @@ CASE w = 0 -> [m1 |-> other(g.m1, 180)]
                  [] w = 1 -> [m2 |-> other(g.m2, 190)]
                  [] w = 2 -> [m3 |-> Pick(n, 195, Medium)]
                  [] w = 3 -> [lss |-> g.lss + 1]
                  [] OTHER -> IF g.ext THEN [r2 |-> [z \in 1..Len(g.r2) |-> Dec((g.r2[z][1] * 10) - 3, -2)]]
                              ELSE [r1 |-> [z \in 1..Len(g.r1) |-> Dec((g.r1[z][1] * 10) - 3, -2)]]
\* u is a thermodynamics object on p or on q
UP(n) == (n \div 2) % 2 = 0
NSet == 8
Setup(n) == <<[op |-> Geo(n).gop, as |-> "g"], GP(n), GQ(n), TRec(n, "t", "g", 0), TRec(n, "u", IF UP(n) THEN "p" ELSE "q", 0), TRec(n, "w", "g", 3), [op |-> "arr", as |-> "K1", v |-> Cont(n, 1)], [op |-> "arr", as |-> "K2", v |-> Cont(n, 4)]>>
Fresh(n, h) == <<[as |-> "f"] @@ (IF h.x.o = "p" \/ (h.x.o = "u" /\ UP(n)) THEN GP(n) ELSE IF h.x.o \in {"q", "u"} THEN GQ(n) ELSE [op |-> Geo(n).gop])>>
               \o (IF IsT(h.x.o) THEN <<TRec(n, "ft", "f", IF h.x.o = "w" THEN 3 ELSE 0)>> ELSE <<>>)
               \o <<Call(n, h.x, IF IsT(h.x.o) THEN "ft" ELSE "f", IF h.c = 0 THEN <<>> ELSE Cont(n, h.c))>>
Iso(s, q) == [z \in 1..Len(s) |-> [iso |-> q] @@ s[z]]
RECURSIVE Refs(_, _, _)
Refs(n, h, q) == IF q > Len(h) THEN <<>> ELSE (IF IsEval(h[q].x) THEN Iso(Fresh(n, h[q]), q) ELSE <<>>) \o Refs(n, h, q + 1)
Scenario(n, h) ==
    Geo(n) @@ [hist |-> [q \in 1..Len(h) |-> <<h[q].x.a, h[q].x.o, h[q].x.k, h[q].x.m, h[q].c>>],
               steps |-> Setup(n) \o [q \in 1..Len(h) |-> Call(n, h[q].x, h[q].x.o, h[q].x.k)] \o Refs(n, h, 1)]
\* pairs of attempts alone tell nothing
Useful(h) == IsEval(h[Len(h)].x)
GNext ==
    \/ /\ v = "new" /\ Len(hist) < MaxLen
       /\ \E q \in (IF i <= NExh THEN 1..Len(Acts) ELSE {1 + Rnd(i, 200 + Len(hist), Len(Acts))}) : Do(Acts[q])
       /\ UNCHANGED <<i, v>>
    \/ /\ v = "new" /\ Len(hist) = MaxLen /\ v' = "out" /\ UNCHANGED <<i, hist, ar>>
       /\ (Useful(hist) \/ i > NExh) => PrintT("@@" \o ToJson(Scenario(i, hist)))
\* the content recorded with every call is the one of the last write before it
RECURSIVE LastSet(_, _)
LastSet(q, nm) == IF q = 0 THEN (IF nm = "K1" THEN 1 ELSE 4)
                  ELSE IF hist[q].x.a = "set" /\ hist[q].x.k = nm THEN hist[q].x.m ELSE LastSet(q - 1, nm)
Coherent == \A q \in 1..Len(hist) : hist[q].x.k # "" => hist[q].c = LastSet(q - 1, hist[q].x.k)

\* ---- judging -----------------------------------------------------------------
EvalPos(t) == LET n == Len(t.hist) IN SelectSeq([q \in 1..n |-> q], LAMBDA q : \E e \in 1..Len(Eval) : Eval[e].a = t.hist[q][1])
RECURSIVE RefPos(_, _, _, _)
RefPos(t, q, pos, acc) ==      \* position of the reference result of every evaluation
    IF q > Len(t.hist) THEN acc
    ELSE IF \E e \in 1..Len(Eval) : Eval[e].a = t.hist[q][1]
    THEN LET len == IF IsT(t.hist[q][2]) THEN 3 ELSE 2 IN RefPos(t, q + 1, pos + len, Append(acc, <<NSet + q, pos + len>>))
    ELSE RefPos(t, q + 1, pos, acc)
Same(a, b) == /\ (a.st = "ok") = (b.st = "ok")
              /\ a.st = "ok" => Len(a.v) = Len(b.v) /\ \A q \in 1..Len(a.v) : Close(a.v[q], b.v[q], Tol(9), Mul(Tol(9), Max2(Abs(b.v[1]), Tol(4))))
Verdict(t) ==
    LET r == t.res
        ps == RefPos(t, 1, NSet + Len(t.hist), <<>>)
        bad == {q \in 1..Len(ps) : ~Same(r[ps[q][1]], r[ps[q][2]])}
        none == {q \in 1..Len(ps) : r[ps[q][2]].st # "ok" /\ ~(t.hist[ps[q][1] - NSet][1] \in {"msum0", "single0"} /\ IsLayered(t))}
    IN  IF \E q \in 1..NSet : r[q].st # "ok" THEN "construction"
        ELSE IF \E q \in 1..(NSet + Len(t.hist)) : r[q].mut = 1 THEN "arguments-or-parameters-modified"
        ELSE IF none # {} THEN "not-evaluated"
        ELSE IF bad # {} THEN "depends-on-history-" \o t.hist[ps[CHOOSE q \in bad : \A z \in bad : q <= z][1] - NSet][1]
        ELSE "ok"
JInit == i \in 1..Len(Trace) /\ v = "new" /\ hist = <<>> /\ ar = <<>>
JNext == v = "new" /\ UNCHANGED <<i, hist, ar>> /\ \E t \in {Trace[i]} : \E w \in {Verdict(t)} : PrintT("@V " \o ToString(i) \o " " \o w) /\ v' = w
=============================================================================
