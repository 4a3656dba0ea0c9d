------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* Parameter searches.  Objects: straight segments and flat patches with   *)
(* affine parametrisation (every knot pattern within the bounds), bent     *)
(* curves and patches whose legs are pairwise acute, and wild ones.  The   *)
(* model also runs the bisection itself, in exact arithmetic: the target   *)
(* stays bracketed because the distance to it falls towards it.            *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Degrees, MaxInterior, KnotVals, Kinds, Places, MaxDepth,
          Nets      \* (degree u, degree v) as two-digit numbers
VARIABLES what, lo, hi
mcvars == <<heap, disk, memo, what, lo, hi>>

SurfTargets == {Zero, Q(1, 3), One}
Targets == {Zero, Q(1, 3), Half, Q(3, 4), One, Q(1, 1000), Q(99, 100)}

(* Where: origin and edges.                                                *)
O(g) == CASE g = 1 -> <<Zero, Zero, Zero>> [] g = 2 -> <<Q(1, 1), Q(-2, 1), Q(1, 2)>> [] g = 3 -> <<Q(-5, 1), Q(3, 1), Q(4, 1)>>
A(g) == CASE g = 1 -> <<Q(1, 1), Zero, Zero>> [] g = 2 -> <<Q(1, 2), Q(1, 2), Q(-1, 4)>> [] g = 3 -> <<Zero, Zero, Q(-3, 1)>>
B(g) == CASE g = 1 -> <<Zero, Q(2, 1), Zero>> [] g = 2 -> <<Q(-1, 2), Q(1, 1), Q(1, 1)>> [] g = 3 -> <<Q(-1, 1), Q(1, 2), Q(-1, 1)>>
(* A smooth bend added to control points: keeps legs acute.                *)
Bend(g, n, i) == IF n = 1 THEN Zero ELSE RMul(Q(1, 4), RMul(Q(i * i, n * n), One))
At(o, a, x) == [e \in 1..3 |-> RAdd(o[e], RMul(x, a[e]))]

Ones(s) == TLCEval([m \in 1..Len(s) |-> s[m] \o <<One>>])
CurveFor(kind, p, U, g) ==
    LET n == Len(U) - p - 1
        pt(i) == CASE kind = "straight" -> At(O(g), A(g), Greville(p, U, i))
                   [] kind = "bent" -> At(At(O(g), A(g), Q(i, 1)), B(g), Bend(g, n - 1, i))
                   [] kind = "wild" -> <<RInt((i * i * 7) % 11), RInt(-((i * 5) % 7)), RInt((i * 3) % 5)>>
    IN  [p |-> p, U |-> U, P |-> Ones([m \in 1..n |-> pt(m - 1)])]
SurfFor(kind, p, q, U, V, g) ==
    LET n == Len(U) - p - 1  m == Len(V) - q - 1
        pt(i, j) == CASE kind = "straight" -> At(At(O(g), A(g), Greville(p, U, i)), B(g), Greville(q, V, j))
                      [] kind = "bent" -> At(At(At(O(g), A(g), Q(i, 1)), B(g), Q(j, 1)), A(g), RMul(Q(1, 4), Q(i * j, n * m)))
                      [] kind = "wild" -> <<RInt(((i + 2 * j) * i * 7) % 11), RInt(-((i * 5 + j) % 7)), RInt((i * 3 + j * j) % 5)>>
    IN  [pu |-> p, pv |-> q, U |-> U, V |-> V, nu |-> n, nv |-> m,
         P |-> Ones([k \in 1..(n * m) |-> pt((k - 1) % n, (k - 1) \div n)])]

Curves == {[k |-> "curve", kind |-> kd, o |-> CurveFor(kd, p, MakeKnotSeq(p, s), g)]
             : kd \in Kinds, p \in Degrees, g \in Places, s \in UNION {InteriorSeqs(KnotVals, MaxInterior, d) : d \in Degrees}}
Surfs == {[k |-> "surf", kind |-> kd, o |-> SurfFor(kd, d \div 10, d % 10, MakeKnotSeq(d \div 10, s), MakeKnotSeq(d % 10, t), g)]
             : kd \in Kinds, d \in Nets, g \in Places, s \in InteriorSeqs(KnotVals, 1, 1), t \in InteriorSeqs(KnotVals, 1, 1)}
Legal(w) == IF w.k = "curve" THEN WellFormedCurve(w.o) ELSE WellFormedSurface(w.o)

Init == /\ NurbsInit /\ lo = Zero /\ hi = One
        /\ \E w \in {w \in Curves : Legal(w)}, t \in Targets : what = [k |-> "curve", kind |-> w.kind, o |-> w.o, at |-> <<t>>, free |-> 0]
        \/ /\ NurbsInit /\ lo = Zero /\ hi = One
           /\ \E w \in Surfs, t \in SurfTargets, h \in SurfTargets, f \in {0, 1} :
                what = [k |-> "surf", kind |-> w.kind, o |-> w.o, at |-> <<t, h>>, free |-> f]
(* The curve or parameter line searched, and the target's parameter on it. *)
PointAt(x) == IF what.k = "curve" THEN CurveAt(what.o, x)
              ELSE IF what.free = 0 THEN SurfAt(what.o, x, what.at[2]) ELSE SurfAt(what.o, what.at[1], x)
Target == IF what.k = "curve" \/ what.free = 0 THEN what.at[1] ELSE what.at[2]
D(x) == Dist2(PointAt(x), PointAt(Target))

(* One round of bisection.                                                 *)
Next == /\ what.kind # "wild" /\ RLt(Q(1, MaxDepth), RSub(hi, lo))
        /\ LET mid == RMul(Half, RAdd(lo, hi))
               d == RMul(Q(1, 16), RSub(hi, lo))
               here == D(mid)
           IN  CASE RLt(D(RSub(mid, d)), here) -> lo' = lo /\ hi' = mid
                 [] OTHER -> IF RLt(D(RAdd(mid, d)), here) THEN lo' = mid /\ hi' = hi
                             ELSE lo' = RSub(mid, d) /\ hi' = RAdd(mid, d)
        /\ UNCHANGED <<heap, disk, memo, what>>
Spec == Init /\ [][Next]_mcvars
View == <<what, lo, hi>>

---------------------------------------------------------------------------
Bracketed == what.kind # "wild" => RLe(lo, Target) /\ RLe(Target, hi)

(* The conditions under which a search must succeed hold as intended.      *)
Classified ==
    LET held == 1 - what.free
    IN  CASE what.k = "curve" /\ what.kind = "straight" -> EasyCurve(what.o) /\ AffineRow(what.o.p, what.o.U, what.o.P)
          [] what.k = "curve" /\ what.kind = "bent" -> EasyCurve(what.o) /\ AcuteLegs(LegsOf(what.o.P))
          [] what.k = "surf" /\ what.kind = "straight" -> EasySurface(what.o) /\ AffineNet(what.o) /\ Handy(what.o)
          [] what.k = "surf" /\ what.kind = "bent" -> EasySurface(what.o) /\ AcuteLegs(FreeLegs(what.o, held))
          [] OTHER -> TRUE

(* A straight shape's parametrisation is affine.                           *)
IsAffine == what.kind = "straight" =>
    \A x \in Targets : REq(D(x), RMul(RMul(RSub(x, Target), RSub(x, Target)), Dist2(PointAt(Zero), PointAt(One))))

(* The distance falls towards the target, on a grid of parameters.         *)
Falls == what.kind # "wild" =>
    LET ts == [i \in 0..8 |-> D(Eighth(i))]
    IN  \A i \in 0..7 : /\ RLe(Eighth(i + 1), Target) => RLt(ts[i + 1], ts[i])
                        /\ RLe(Target, Eighth(i)) => RLt(ts[i], ts[i + 1])

(* Any correct answer is accepted: the target itself.                      *)
Emit == (lo = Zero /\ hi = One) =>
    LET q == NumsS(PointAt(Target))
        at == ListS(what.at)
    IN  Behaviour(
        IF what.k = "curve"
        THEN <<CurveS("a", what.o), "csearch a " \o q \o " " \o at \o " 0", "csearch a " \o q \o " " \o at \o " 1 0",
               "csearch a " \o q \o " " \o at \o " 1 1", "csearch a " \o q \o " " \o at \o " 1 " \o RShow(Target), "cbsearch a " \o q \o " " \o at \o " 0",
               "csearch a 3 -7 5 0 0", "cbsearch a 3 -7 5 0 0", "csearch a " \o q \o " 0 3 1/4 1/10 3", "cbsearch a " \o q \o " 0 2 1/4 5"
               >>
        ELSE LET on == Str(1 - what.free) \o " " \o RShow(IF what.free = 0 THEN what.at[2] ELSE what.at[1])
             IN  <<SurfS("a", what.o)>>
                 \o (IF what.free = 0 THEN <<"ssearch a " \o q \o " " \o at \o " 0", "ssearch a " \o q \o " " \o at \o " 2 0 1",
                                             "ssearch a 3 -7 5 0 0", "ssearch a " \o q \o " 0 4 1/4 1 1/10 3">> ELSE <<>>)
                 \o <<"ssearchon a " \o q \o " " \o on \o " " \o at \o " 0", "ssearchon a " \o q \o " " \o on \o " " \o at \o " 1 1",
                      "sbsearchon a " \o q \o " " \o on \o " " \o at \o " 0", "ssearchon a 3 -7 5 " \o on \o " 0 0",
                      "sbsearchon a 3 -7 5 " \o on \o " 0 0", "ssearchon a " \o q \o " " \o on \o " 0 3 1/4 1/10 3",
                      "sbsearchon a " \o q \o " " \o on \o " 0 2 1/4 5">>)
=============================================================================
