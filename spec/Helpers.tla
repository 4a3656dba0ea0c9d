------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* The small numeric functions the algorithms are built from.              *)
(***************************************************************************)
EXTENDS Spline

RECURSIVE PascalRow(_)
PascalRow(n) == IF n = 0 THEN <<1>>
                ELSE LET r == TLCEval(PascalRow(n - 1))
                     IN  TLCEval([k \in 1..(n + 1) |-> (IF k = 1 THEN 0 ELSE r[k - 1]) + (IF k = n + 1 THEN 0 ELSE r[k])])
Choose_(n, k) == IF k > n THEN 0 ELSE PascalRow(n)[k + 1]
RECURSIVE Fact_(_)
Fact_(n) == IF n = 0 THEN 1 ELSE n * Fact_(n - 1)

(* |a - b| < eps; a difference that equals eps up to rounding may be       *)
(* rounded to eps.                                                         *)
RelEps == Q(1, 1000000000)
ApproxOK(a, b, eps, res) ==
    LET d == RMaxAbs(TLCEval([i \in 1..Len(a) |-> RSub(a[i], b[i])]))
    IN  IF RLe(eps, d) THEN ~res
        ELSE RLt(d, RMul(eps, RSub(One, RelEps))) => res

(* Cartesian to homogeneous coordinates and back.                          *)
TolUlps == RMul(RelEps, Q(1, 1000000))
CoordOK(res, x) == RNear(res, x, RMul(TolUlps, RAbs(x)))
ToHomoOK(P, res)   == Len(res) = 4 /\ res[4] = P[4] /\ \A i \in 1..3 : CoordOK(res[i], RMul(P[i], P[4]))
FromHomoOK(P, res) == Len(res) = 4 /\ res[4] = P[4] /\ \A i \in 1..3 : CoordOK(res[i], RDiv(P[i], P[4]))
=============================================================================
