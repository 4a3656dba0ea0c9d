------------------------------- MODULE Boxes --------------------------------
(***************************************************************************)
(* Axis-aligned boxes [mn, mx], two points of three rationals.             *)
(***************************************************************************)
EXTENDS Rat, Sequences, TLC

BoxMin(a, b) == TLCEval([e \in 1..3 |-> RMin(a[e], b[e])])
BoxMax(a, b) == TLCEval([e \in 1..3 |-> RMax(a[e], b[e])])
BoxOf(a, b) == [mn |-> BoxMin(a, b), mx |-> BoxMax(a, b)]
BoxAddPoint(B, q) == [mn |-> BoxMin(B.mn, q), mx |-> BoxMax(B.mx, q)]
BoxAddBox(B, C) == [mn |-> BoxMin(B.mn, C.mn), mx |-> BoxMax(B.mx, C.mx)]
BoxHas(B, q) == \A e \in 1..3 : RLe(B.mn[e], q[e]) /\ RLe(q[e], B.mx[e])
BoxHasBox(B, C) == BoxHas(B, C.mn) /\ BoxHas(B, C.mx)

LOCAL BoxEps == RDiv(Q(1, 1000000), Q(1000000, 1))
LOCAL BoxLen(B) == TLCEval([e \in 1..3 |-> RSub(B.mx[e], B.mn[e])])
(* Each coordinate by itself, to within rounding (a unit of the smallest   *)
(* numbers allowed: subnormals lose digits).                               *)
LOCAL BoxCoord(B, e) == RMax(RAbs(B.mn[e]), RAbs(B.mx[e]))
LOCAL BoxTiny == RParse("1e-300")
LOCAL BoxNear(x, y, size) == RNear(x, y, RAdd(BoxTiny, RMul(BoxEps, size)))
BoxCenterOK(B, r) == Len(r) = 3 /\ \A e \in 1..3 : BoxNear(r[e], RMul(Q(1, 2), RAdd(B.mn[e], B.mx[e])), BoxCoord(B, e))
BoxLengthOK(B, r) == Len(r) = 3 /\ \A e \in 1..3 : BoxNear(r[e], BoxLen(B)[e], BoxCoord(B, e))
(* A product that underflows or overflows on the way is not judged.        *)
LOCAL BoxFits(x) == REq(x, Q(0, 1)) \/ (RLe(RParse("1e-290"), x) /\ RLe(x, RParse("1e290")))
BoxVolumeOK(B, r) ==
    LET l == BoxLen(B)
        v == RMul(l[1], RMul(l[2], l[3]))
        near == RAdd(RMul(RMul(l[1], l[2]), BoxCoord(B, 3)),
                     RAdd(RMul(RMul(l[2], l[3]), BoxCoord(B, 1)), RMul(RMul(l[1], l[3]), BoxCoord(B, 2))))
    IN  (BoxFits(RMul(l[1], l[2])) /\ BoxFits(RMul(l[2], l[3])) /\ BoxFits(RMul(l[1], l[3])) /\ BoxFits(v))
           => BoxNear(r, v, near)
=============================================================================
