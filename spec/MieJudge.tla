------------------------------ MODULE MieJudge ------------------------------
(***************************************************************************)
(* Judging scattering coefficients.  The code returns (TE, TM, ln scale)   *)
(* per wavenumber and order; only the product coefficient * exp(scale) is  *)
(* observable behaviour.  It is compared with the solution of the boundary *)
(* conditions, relative to the natural magnitude i_l/k_l (k_l/i_l) of the  *)
(* coefficient of a perfect conductor.                                     *)
(***************************************************************************)
EXTENDS Base

\* rounding of the closed form of i_1 (see C11) enters orders 1 and 2
Near3(x) == IF Ge(x, TenPow(-3)) /\ Lt(x, One) THEN Div(Tol(14), Pow(x, 3)) ELSE Zero
MieAbs(l, xs) == IF l > 2 THEN Tol(9)
                 ELSE Add(Tol(9), Sum([q \in 1..Len(xs) |-> Near3(xs[q])]))

\* r: result with shape <<3, nk, nl>>; ref(q, l): reference coefficients;
\* nat(q, l): natural magnitude; xsOf(q): arguments entering
ScaledOk(r, nk, nl, lo, p, ref(_, _), nat(_, _), xsOf(_), rel) ==
    \A q \in 1..nk : \A l \in lo..(lo + nl - 1) :
        LET c == r.v[(p - 1) * nk * nl + (q - 1) * nl + l - lo + 1]
            s == r.v[2 * nk * nl + (q - 1) * nl + l - lo + 1]
            val == Mul(c, Exp(s))
            w == ref(q, l)
        IN  Le(Abs(Sub(val, w)), Add(Mul(rel, Abs(w)), Mul(MieAbs(l, xsOf(q)), nat(q, l))))
ScaleSane(r, nk, nl) ==     \* exp(scale) can be evaluated by the judge
    \A q \in (2 * nk * nl + 1)..(3 * nk * nl) : Lt(Abs(r.v[q]), TenPow(7))

IndexOf(rec, k) == IF IsPec(rec) THEN One ELSE Sqrt(Mul(EpsOf(rec, k), MuOf(rec, k)))
=============================================================================
