-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Common scaffolding of the conformance modules Cxx.tla.                  *)
(*                                                                         *)
(* Every Cxx.tla defines                                                   *)
(*    Scn(i)      the i-th scenario: a finite behaviour of the system as   *)
(*                seen by a user (sequence of public calls with arguments) *)
(*    Verdict(t)  "ok" iff the recorded trace t (scenario + what the real  *)
(*                code returned at each step) is a behaviour the           *)
(*                specification allows; else the name of the broken clause *)
(* and is run twice by TLC: GInit/GNext enumerates and prints scenarios,   *)
(* JInit/JNext evaluates Verdict on the traces recorded from the code.     *)
(*                                                                         *)
(* Numbers in scenarios are decimal <<n, e>> = n * 10^e; numbers observed  *)
(* in the implementation arrive as Num triples.                            *)
(***************************************************************************)
EXTENDS Physics, Json
CONSTANTS Seed, NScn, TraceFile

Trace == IF TraceFile = "" THEN <<>> ELSE ndJsonDeserialize(TraceFile)

(* --- deterministic pseudo random choices -------------------------------- *)
\* quadratic congruential hash of (Seed, i, j), in 0..HP-1
HP == 46337
HStep(y) == LET x == y % HP IN ((((x * x) % HP) * 5) + (x * 31) + 7) % HP
H1(i, j) == LET a == HStep(((Seed % HP) * 7919) + 13 + ((i % HP) * 211))
                b == HStep(a + ((j % HP) * 1009) + i)
                c == HStep(b + (3 * a) + j)
            IN  HStep(c + b)
Rnd(i, j, n) == H1(i, j) % n           \* 0..n-1
\* choose from a sequence
Pick(i, j, s) == s[1 + Rnd(i, j, Len(s))]
IntIn(i, j, lo, hi) == lo + Rnd(i, j, hi - lo + 1)
\* decimal numbers
Dec(n, e) == <<n, e>>
\* cyclic choice: guarantees coverage of small alphabets
Cyc(i, s) == s[1 + ((i + Seed) % Len(s))]

D(x) == IF x[1] = 0 THEN Zero ELSE Mul(I(x[1]), TenPow(x[2]))
DSeq(s) == TLCEval([q \in 1..Len(s) |-> D(s[q])])

(* --- materials ----------------------------------------------------------- *)
Nm(s) == [name |-> s, kind |-> "", e |-> <<>>, b |-> <<>>]
Usr(e, b) == [name |-> "", kind |-> "lorentz", e |-> e, b |-> b]
MatX(j) == IF j.name # "" THEN MatDef(j.name)
           ELSE [kind |-> j.kind,
                 e |-> TLCEval([q \in 1..Len(j.e) |-> <<D(j.e[q][1]), D(j.e[q][2]), D(j.e[q][3])>>]),
                 b |-> IF j.b = <<>> THEN <<>> ELSE <<D(j.b[1]), D(j.b[2])>>]
MatXs(s) == TLCEval([q \in 1..Len(s) |-> MatX(s[q])])

\* geometry record of a scenario -> physics record
GeoX(s) == [r1 |-> DSeq(s.r1), r2 |-> DSeq(s.r2), L |-> D(s.L), m1 |-> MatXs(s.m1), m2 |-> MatXs(s.m2),
            md |-> MatX(s.m3), lmax |-> s.lmax, lss |-> s.lss]

(* --- judging ------------------------------------------------------------- *)
IsNum(v) == v.st = "ok"
Tol(n) == TenPow(-n)
\* first failing clause of a sequence of <<cond, name>> (evaluated lazily in order)
RECURSIVE FirstBad(_, _)
FirstBad(cs, q) == IF q > Len(cs) THEN "ok" ELSE IF cs[q][1] THEN FirstBad(cs, q + 1) ELSE cs[q][2]
Verdict2(a, b) == IF a # "ok" THEN a ELSE b
AllClose(v, w, rel, abs) == Len(v) = Len(w) /\ \A q \in 1..Len(v) : Close(v[q], w[q], rel, abs)
=============================================================================
