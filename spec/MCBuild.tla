------------------------------ MODULE MCBuild -------------------------------
(***************************************************************************)
(* The segment and rectangle builders.                                     *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS MaxDegree, MaxExtra, Places     \* Places: subset of 1..4
VARIABLES what
mcvars == <<heap, disk, memo, what>>

A(n) == CASE n = 1 -> <<Zero, Zero, Zero>> [] n = 2 -> <<Q(-3, 2), Q(5, 1), Q(1, 3)>>
          [] n = 3 -> <<Q(1000, 1), Q(-1000, 1), Q(7, 1)>> [] n = 4 -> <<Q(1, 1), Q(1, 1), Q(1, 1)>>
B(n) == CASE n = 1 -> <<Q(3, 1), Zero, Zero>> [] n = 2 -> <<Q(4, 1), Q(-1, 4), Q(10, 1)>>
          [] n = 3 -> <<Q(1001, 1), Q(-1000, 1), Q(8, 1)>> [] n = 4 -> <<Q(-2, 1), Q(1, 1), Q(1, 1)>>
C(n) == CASE n = 1 -> <<Zero, Q(2, 1), Zero>> [] n = 2 -> <<Q(-2, 1), Q(6, 1), Q(-5, 7)>>
          [] n = 3 -> <<Q(1000, 1), Q(-999, 1), Q(7, 1)>> [] n = 4 -> <<Q(1, 1), Q(1, 1), Q(-9, 1)>>

Affine(P, Q_, x) == [e \in 1..3 |-> RAdd(P[e], RMul(x, RSub(Q_[e], P[e])))]
Seg(p, n, a, b) == [p |-> p, U |-> UniformKnots(p, n + p + 1),
                    P |-> TLCEval([i \in 1..n |-> Lerp(a, b, i - 1, n - 1) \o <<One>>])]
Rct(pu, pv, nu, nv, lb, rb, lt) ==
    [pu |-> pu, pv |-> pv, U |-> UniformKnots(pu, nu + pu + 1), V |-> UniformKnots(pv, nv + pv + 1), nu |-> nu, nv |-> nv,
     P |-> TLCEval([m \in 1..(nu * nv) |->
             LET i == (m - 1) % nu  j == (m - 1) \div nu  p == Lerp(lb, rb, i, nu - 1)
             IN  [e \in 1..3 |-> RAdd(p[e], RMul(Q(j, nv - 1), RSub(lt[e], lb[e])))] \o <<One>>])]

Init == /\ NurbsInit
        /\ \/ \E p \in 1..MaxDegree, x \in 0..MaxExtra, g \in Places : what = [k |-> "seg", p |-> p, n |-> p + 1 + x, g |-> g]
           \/ \E p \in 1..MaxDegree, q \in 1..MaxDegree, x \in 0..MaxExtra, y \in 0..MaxExtra, g \in Places :
                what = [k |-> "rect", p |-> p, q |-> q, n |-> p + 1 + x, m |-> q + 1 + y, g |-> g]
Next == /\ heap = <<>> /\ UNCHANGED what
        /\ IF what.k = "seg"
           THEN GSegment("a", what.p, what.n, A(what.g), B(what.g), Seg(what.p, what.n, A(what.g), B(what.g)))
           ELSE GRect("a", what.p, what.q, what.n, what.m, A(what.g), B(what.g), C(what.g),
                      Rct(what.p, what.q, what.n, what.m, A(what.g), B(what.g), C(what.g)))
Spec == Init /\ [][Next]_mcvars
View == <<heap, what>>

---------------------------------------------------------------------------
(* Well-formed, and the end points (corners) are met.                      *)
Built == heap # <<>> =>
    LET o == heap["a"].v  a == A(what.g)  b == B(what.g)  d == C(what.g)
        far == [e \in 1..3 |-> RAdd(b[e], RSub(d[e], a[e]))]
    IN  IF what.k = "seg"
        THEN WellFormedCurve(o) /\ CurveAt(o, Zero) = a /\ CurveAt(o, One) = b
        ELSE /\ WellFormedSurface(o)
             /\ SurfAt(o, Zero, Zero) = a /\ SurfAt(o, One, Zero) = b
             /\ SurfAt(o, Zero, One) = d /\ SurfAt(o, One, One) = far
Emit == heap = <<>> => Behaviour(<<
    IF what.k = "seg" THEN "gseg a " \o Str(what.p) \o " " \o Str(what.n) \o " " \o NumsS(A(what.g)) \o " " \o NumsS(B(what.g))
    ELSE "grect a " \o Str(what.p) \o " " \o Str(what.q) \o " " \o Str(what.n) \o " " \o Str(what.m) \o " "
         \o NumsS(A(what.g)) \o " " \o NumsS(B(what.g)) \o " " \o NumsS(C(what.g))>>)
=============================================================================
