------------------------------- MODULE Nurbs --------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* A client holds objects in named registers (heap) and saved objects in   *)
(* named files (disk).  Every public call is one action.  Operations that  *)
(* return an object put it into a register and leave every other register, *)
(* in particular their operand, as it was; queries change nothing.  The    *)
(* last arguments of an action are what the call returns: the action is    *)
(* enabled exactly for the results the specification allows.               *)
(*                                                                         *)
(* Used in two ways: the MC... models choose exact results and explore;    *)
(* Trace.tla takes the results the real library returned.                  *)
(***************************************************************************)
EXTENDS Knots, Grids, Boxes, Files, Helpers

VARIABLES heap,     \* register -> [k |-> kind, v |-> value]
          disk,     \* file -> [k |-> kind, v |-> value]
          memo      \* calls made so far that a later call may repeat
vars == <<heap, disk, memo>>

NurbsInit == heap = <<>> /\ disk = <<>> /\ memo = <<>>

Holds(r, kind) == r \in DOMAIN heap /\ heap[r].k = kind
Crv(r) == heap[r].v
Srf(r) == heap[r].v
KV(r)  == heap[r].v
Put(d, kind, v) == heap' = (d :> [k |-> kind, v |-> v]) @@ heap /\ UNCHANGED <<disk, memo>>
Quiet == UNCHANGED vars
Is(b) == b = TRUE       \* a condition: TLC evaluates it, and does not look for actions in it

---------------------------------------------------------------------------
(* The client writes an object down.                                       *)
MakeCurve(d, c)   == Put(d, "curve", c)
MakeSurface(d, s) == Put(d, "surf", s)
MakeKnots(d, U)   == Put(d, "kv", U)

---------------------------------------------------------------------------
(* Basis functions.                                                        *)
SpanOf(r, p, x, k) == RLe(K(KV(r), k), x) /\ RLe(x, K(KV(r), k + 1)) /\ RLt(K(KV(r), k), K(KV(r), k + 1))
BasisEval(r, p, x, res)       == Holds(r, "kv") /\ Is(BasisOKAt(p, KV(r), Span(KV(r), x), x, res)) /\ Quiet
BasisEvalAt(r, p, k, x, res)  == Holds(r, "kv") /\ SpanOf(r, p, x, k) /\ Is(BasisOKAt(p, KV(r), k, x, res)) /\ Quiet
BasisDers(r, p, x, m, res)    == Holds(r, "kv") /\ Is(BasisDersOKAt(p, KV(r), Span(KV(r), x), x, m, res)) /\ Quiet
BasisDersAt(r, p, k, x, m, res) == Holds(r, "kv") /\ SpanOf(r, p, x, k) /\ Is(BasisDersOKAt(p, KV(r), k, x, m, res)) /\ Quiet
BasisDerOne(r, p, x, d, res)  == Holds(r, "kv") /\ Is(BasisDerOKAt(p, KV(r), Span(KV(r), x), x, d, res)) /\ Quiet
BasisDerOneAt(r, p, k, x, d, res) == Holds(r, "kv") /\ SpanOf(r, p, x, k) /\ Is(BasisDerOKAt(p, KV(r), k, x, d, res)) /\ Quiet

---------------------------------------------------------------------------
(* Curves.                                                                 *)
CEval(r, x, res)      == Holds(r, "curve") /\ Is(CurveEvalOK(Crv(r), x, res)) /\ Quiet
CDers(r, x, m, res)   == Holds(r, "curve") /\ Is(CurveDersOK(Crv(r), x, m, res)) /\ Quiet
CDer(r, x, d, res)    == Holds(r, "curve") /\ Is(CurveDerOK(Crv(r), x, d, res)) /\ Quiet
CRational(r, res)     == Holds(r, "curve") /\ res = Rational(Crv(r).P) /\ Quiet
CInsert(d, r, xs, res)    == Holds(r, "curve") /\ Is(CurveInsertOK(Crv(r), xs, res)) /\ Put(d, "curve", res)
CRemove(d, r, u, n, tol, t, res) ==
    Holds(r, "curve") /\ Is(CurveRemoveOK(Crv(r), u, n, tol, t, res)) /\ Put(d, "curve", res)
CElevate(d, r, t, res)    == Holds(r, "curve") /\ Is(CurveElevateOK(Crv(r), t, res)) /\ Put(d, "curve", res)
CTransform(d, r, M, res)  == Holds(r, "curve") /\ Is(CurveTransformOK(Crv(r), M, res)) /\ Put(d, "curve", res)
CBezier(r, segs)          == Holds(r, "curve") /\ Is(BezierOK(Crv(r), segs)) /\ Quiet
CBox(r, eps, mn, mx)      == Holds(r, "curve") /\ Is(BoxOK(Crv(r), eps, mn, mx)) /\ Quiet

(* Searches.  Straight: an affinely parametrised segment.  All control     *)
(* points of such a curve lie at their Greville abscissae.                 *)
Greville(p, U, i) == RDiv(RSum(SubSeq(U, i + 2, i + p + 1)), RInt(p))
LengthIn(a, lo, hi) == RLe(RMul(lo, lo), Norm2(a)) /\ RLe(Norm2(a), RMul(hi, hi))
AffineRow(p, U, Ps) ==
    /\ ~Rational(Ps)
    /\ LET A == XYZ(Ps[1])  B == XYZ(Ps[Len(Ps)])
           size == SizeOf(Ps)
       IN  /\ LengthIn(VSub(B, A), Q(1, 5), Q(1000, 1))
           /\ \A i \in 1..Len(Ps) :
                RNearAll(XYZ(Ps[i]), [e \in 1..3 |-> RAdd(A[e], RMul(Greville(p, U, i - 1), RSub(B[e], A[e])))],
                         RMul(E(13), RMax(size, MaxXYZ(Ps))))
OnCurve(c, q, x) == RNearAll(CurveAt(c, x), q, RMul(E(13), RMax(SizeOf(c.P), MaxXYZ(c.P))))
FoundOnCurve(c, q, x) ==
    RLe(Dist2(CurveAt(c, x), q), RMul(SearchTol(SizeOf(c.P)), SearchTol(SizeOf(c.P))))
EasyCurve(c) == WideKnots(c.U) /\ NearOrigin(c.P, SizeOf(c.P))

(* at: a parameter at which the curve passes through q, or <<>> if q is    *)
(* not known to lie on the curve.                                          *)
CSearch(r, q, at, res) ==
    /\ Holds(r, "curve") /\ InUnit(res)
    /\ Is((at # <<>> /\ EasyCurve(Crv(r)) /\ AffineRow(Crv(r).p, Crv(r).U, Crv(r).P) /\ OnCurve(Crv(r), q, at[1]))
          => FoundOnCurve(Crv(r), q, res))
    /\ Quiet
CBinSearch(r, q, at, res) ==
    /\ Holds(r, "curve") /\ InUnit(res)
    /\ Is((at # <<>> /\ EasyCurve(Crv(r)) /\ EqualWeights(Crv(r).P) /\ AcuteLegs(LegsOf(Crv(r).P)) /\ OnCurve(Crv(r), q, at[1]))
          => FoundOnCurve(Crv(r), q, res))
    /\ Quiet

---------------------------------------------------------------------------
(* Surfaces.  dir is "u" or "v".                                           *)
SEval(r, x, y, res)         == Holds(r, "surf") /\ Is(SurfEvalOK(Srf(r), x, y, res)) /\ Quiet
SDers(r, x, y, a, b, tab)   == Holds(r, "surf") /\ Is(SurfDersOK(Srf(r), x, y, a, b, tab)) /\ Quiet
SDer(r, x, y, a, b, res)    == Holds(r, "surf") /\ Is(SurfDerOK(Srf(r), x, y, a, b, res)) /\ Quiet
SRational(r, res)           == Holds(r, "surf") /\ res = Rational(Srf(r).P) /\ Quiet
SInsert(d, r, dir, xs, res) ==
    /\ Holds(r, "surf")
    /\ IF dir = "u" THEN Is(SurfInsertUOK(Srf(r), xs, res)) ELSE Is(SurfInsertVOK(Srf(r), xs, res))
    /\ Put(d, "surf", res)
SRemove(d, r, dir, u, n, tol, t, res) ==
    /\ Holds(r, "surf")
    /\ IF dir = "u" THEN Is(SurfRemoveUOK(Srf(r), u, n, tol, t, res)) ELSE Is(SurfRemoveVOK(Srf(r), u, n, tol, t, res))
    /\ Put(d, "surf", res)
SElevate(d, r, dir, t, res) ==
    /\ Holds(r, "surf")
    /\ IF dir = "u" THEN Is(SurfElevateUOK(Srf(r), t, res)) ELSE Is(SurfElevateVOK(Srf(r), t, res))
    /\ Put(d, "surf", res)
STransform(d, r, M, res)    == Holds(r, "surf") /\ Is(SurfTransformOK(Srf(r), M, res)) /\ Put(d, "surf", res)
SAlign(d, r, au, av, res)   == Holds(r, "surf") /\ Is(AlignOK(Srf(r), au, av, res)) /\ Put(d, "surf", res)

(* Flat: an affine parallelogram patch with independent edges.             *)
AffineNet(s) ==
    /\ ~Rational(s.P)
    /\ LET O == XYZ(Net(s, 0, 0))
           a == EdgeU(s)
           b == EdgeV(s)
           size == RMax(RMaxAbs(a), RMaxAbs(b))
       IN  \A i \in 0..(s.nu - 1) : \A j \in 0..(s.nv - 1) :
             LET gu == Greville(s.pu, s.U, i)  gv == Greville(s.pv, s.V, j)
             IN  RNearAll(XYZ(Net(s, i, j)),
                          [e \in 1..3 |-> RAdd(O[e], RAdd(RMul(gu, a[e]), RMul(gv, b[e])))],
                          RMul(E(13), RMax(size, MaxXYZ(s.P))))
SurfSize(s) == SizeOf(s.P)
OnSurface(s, q, x, y) == RNearAll(SurfAt(s, x, y), q, RMul(E(13), RMax(SurfSize(s), MaxXYZ(s.P))))
FoundOnSurface(s, q, x, y) ==
    RLe(Dist2(SurfAt(s, x, y), q), RMul(SearchTol(SurfSize(s)), SearchTol(SurfSize(s))))
EasySurface(s) == WideKnots(s.U) /\ WideKnots(s.V) /\ NearOrigin(s.P, SurfSize(s))
(* Edges 1/2 to 4 long, 45 to 135 degrees apart.                           *)
Handy(s) ==
    LET a == EdgeU(s)  b == EdgeV(s)
    IN  /\ LengthIn(a, Half, Q(4, 1)) /\ LengthIn(b, Half, Q(4, 1))
        /\ RLe(RMul(VDot(a, b), VDot(a, b)), RMul(Half, RMul(Norm2(a), Norm2(b))))
SSearch(r, q, at, x, y) ==
    /\ Holds(r, "surf") /\ InUnit(x) /\ InUnit(y)
    /\ Is((at # <<>> /\ EasySurface(Srf(r)) /\ AffineNet(Srf(r)) /\ Handy(Srf(r)) /\ OnSurface(Srf(r), q, at[1], at[2]))
          => FoundOnSurface(Srf(r), q, x, y))
    /\ Quiet
(* The constrained searches hold the parameter number dir (0: u, 1: v).    *)
HeldOK(dir, held, x, y) == REq(IF dir = 0 THEN x ELSE y, held)
FreeEdge(s, dir) == IF dir = 0 THEN EdgeV(s) ELSE EdgeU(s)
SSearchOn(r, q, dir, held, at, x, y) ==
    /\ Holds(r, "surf") /\ InUnit(x) /\ InUnit(y) /\ Is(HeldOK(dir, held, x, y))
    /\ Is((at # <<>> /\ EasySurface(Srf(r)) /\ AffineNet(Srf(r)) /\ LengthIn(FreeEdge(Srf(r), dir), Q(1, 5), Q(1000, 1))
             /\ HeldOK(dir, held, at[1], at[2]) /\ OnSurface(Srf(r), q, at[1], at[2]))
          => FoundOnSurface(Srf(r), q, x, y))
    /\ Quiet
(* Binary search: legs of the parameter line's polygons pairwise acute,    *)
(* over all lines of the net in the free direction.                        *)
FreeLegs(s, dir) ==
    IF dir = 0 THEN {VSub(XYZ(Net(s, i, j + 1)), XYZ(Net(s, i, j))) : i \in 0..(s.nu - 1), j \in 0..(s.nv - 2)}
    ELSE {VSub(XYZ(Net(s, i + 1, j)), XYZ(Net(s, i, j))) : i \in 0..(s.nu - 2), j \in 0..(s.nv - 1)}
SBinSearchOn(r, q, dir, held, at, x, y) ==
    /\ Holds(r, "surf") /\ InUnit(x) /\ InUnit(y) /\ Is(HeldOK(dir, held, x, y))
    /\ Is((at # <<>> /\ EasySurface(Srf(r)) /\ ~Rational(Srf(r).P) /\ AcuteLegs(FreeLegs(Srf(r), dir))
             /\ HeldOK(dir, held, at[1], at[2]) /\ OnSurface(Srf(r), q, at[1], at[2]))
          => FoundOnSurface(Srf(r), q, x, y))
    /\ Quiet

---------------------------------------------------------------------------
(* Builders.                                                               *)
GSegment(d, p, n, A, B, res) == Is(SegmentOK(p, n, A, B, res)) /\ Put(d, "curve", res)
GRect(d, pu, pv, nu, nv, LB, RB, LT, res) == Is(RectOK(pu, pv, nu, nv, LB, RB, LT, res)) /\ Put(d, "surf", res)

---------------------------------------------------------------------------
(* Knot vectors.  out: see Knots.tla.                                      *)
KConstruct(d, vs, out) == Is(ConstructOK(vs, out)) /\ IF out.ok THEN Put(d, "kv", out.U) ELSE Quiet
KUniform(d, p, n, U)   == Is(UniformOK(p, n, U)) /\ Put(d, "kv", U)
KSpanIndex(r, p, x, k) == Holds(r, "kv") /\ Is(SpanIndexOK(KV(r), p, x, k)) /\ Quiet
KPairs(r, res)         == Holds(r, "kv") /\ Is(PairsOK(KV(r), res)) /\ Quiet
KPairSpan(r, x, res)   == Holds(r, "kv") /\ Is(PairSpanOK(KV(r), x, res)) /\ Quiet
KMult(r, x, res)       == Holds(r, "kv") /\ Is(MultiplicityOK(KV(r), x, res)) /\ Quiet
(* all: the knots read one by one.                                         *)
KFlags(r, valid, clamped, uniform, n, all) ==
    /\ Holds(r, "kv")
    /\ n = Len(KV(r)) /\ all = KV(r)
    /\ valid = ValidKnots(KV(r)) /\ clamped = IsClampedKnots(KV(r))
    /\ Sorted(KV(r)) => Is(UniformFlagOK(KV(r), uniform))
    /\ Quiet
KDegree(r, out)        == Holds(r, "kv") /\ Is(DegreeOK(KV(r), out)) /\ Quiet
KInsert(r, x, n, k, U) == Holds(r, "kv") /\ Is(KnotInsertOK(KV(r), x, n, k, U)) /\ Put(r, "kv", U)
KReverse(r, U)         == Holds(r, "kv") /\ Is(KnotReverseOK(KV(r), U)) /\ Put(r, "kv", U)

---------------------------------------------------------------------------
(* Grids.                                                                  *)
Grd(r) == heap[r].v
GNew(d, nu, nv, x)     == Put(d, "grid", GridNew(nu, nv, x))
GSet(r, u, v, x)       == Holds(r, "grid") /\ Put(r, "grid", GridSet(Grd(r), u, v, x))
GSetU(r, u, xs)        == Holds(r, "grid") /\ Put(r, "grid", GridSetU(Grd(r), u, xs))
GSetV(r, v, xs)        == Holds(r, "grid") /\ Put(r, "grid", GridSetV(Grd(r), v, xs))
GInsU(r, k, x)         == Holds(r, "grid") /\ Put(r, "grid", GridInsertU(Grd(r), k, x))
GInsV(r, k, x)         == Holds(r, "grid") /\ Put(r, "grid", GridInsertV(Grd(r), k, x))
(* Inserting a line filled with the present value of a cell.               *)
GInsUCell(r, k, u, v)  == Holds(r, "grid") /\ Put(r, "grid", GridInsertU(Grd(r), k, GridGet(Grd(r), u, v)))
GInsVCell(r, k, u, v)  == Holds(r, "grid") /\ Put(r, "grid", GridInsertV(Grd(r), k, GridGet(Grd(r), u, v)))
GGetU(r, u, xs)        == Holds(r, "grid") /\ xs = GridGetU(Grd(r), u) /\ Quiet
GGetV(r, v, xs)        == Holds(r, "grid") /\ xs = GridGetV(Grd(r), v) /\ Quiet
GGet(r, u, v, x)       == Holds(r, "grid") /\ x = GridGet(Grd(r), u, v) /\ Quiet
GShow(r, nu, nv, count, stored, cells) ==
    Holds(r, "grid") /\ GridShown(Grd(r), nu, nv, count, stored, cells) /\ Quiet

---------------------------------------------------------------------------
(* Boxes.                                                                  *)
Bx(r) == heap[r].v
BShows(B, mn, mx) == B.mn = mn /\ B.mx = mx
BMake(d, a, b, mn, mx)  == Is(BShows(BoxOf(a, b), mn, mx)) /\ Put(d, "box", BoxOf(a, b))
BPoint(r, q, mn, mx)    == Holds(r, "box") /\ Is(BShows(BoxAddPoint(Bx(r), q), mn, mx)) /\ Put(r, "box", BoxAddPoint(Bx(r), q))
BBox(r, s, mn, mx)      == /\ Holds(r, "box") /\ Holds(s, "box")
                           /\ Is(BShows(BoxAddBox(Bx(r), Bx(s)), mn, mx)) /\ Put(r, "box", BoxAddBox(Bx(r), Bx(s)))
BHas(r, q, res)         == Holds(r, "box") /\ res = BoxHas(Bx(r), q) /\ Quiet
BHasBox(r, s, res)      == Holds(r, "box") /\ Holds(s, "box") /\ res = BoxHasBox(Bx(r), Bx(s)) /\ Quiet
BMeasure(r, ctr, len, vol) ==
    Holds(r, "box") /\ Is(BoxCenterOK(Bx(r), ctr)) /\ Is(BoxLengthOK(Bx(r), len)) /\ Is(BoxVolumeOK(Bx(r), vol)) /\ Quiet

---------------------------------------------------------------------------
(* Small functions.                                                        *)
HBinomial(n, k, res)     == res = Choose_(n, k) /\ Quiet
HFactorial(n, res)       == res = Fact_(n) /\ Quiet
HApprox(a, b, eps, res)  == Is(ApproxOK(a, b, eps, res)) /\ Quiet
HToHomo(P, res)          == Is(ToHomoOK(P, res)) /\ Quiet
HFromHomo(P, res)        == Is(FromHomoOK(P, res)) /\ Quiet

---------------------------------------------------------------------------
(* Files.  kind is "curve" or "surf".                                      *)
FileKind(kind) == IF kind = "curve" THEN "CURVE" ELSE "SURFACE"
Save(f, r, size) == /\ r \in DOMAIN heap /\ heap[r].k \in {"curve", "surf"}
                    /\ disk' = (f :> [k |-> heap[r].k, v |-> heap[r].v, size |-> size]) @@ disk
                    /\ UNCHANGED <<heap, memo>>
(* Saving where there is room for n bytes; f holds the same object, saved  *)
(* in the same mode where there was room.  The call returns exactly if all *)
(* of it fits, and then all of it is there.                                *)
SaveRoom(g, f, r, n, done) ==
    /\ f \in DOMAIN disk /\ r \in DOMAIN heap /\ disk[f].k = heap[r].k /\ disk[f].v = heap[r].v
    /\ done = (n >= disk[f].size)
    /\ disk' = IF done THEN (g :> disk[f]) @@ disk ELSE [h \in DOMAIN disk \ {g} |-> disk[h]]
    /\ UNCHANGED <<heap, memo>>
SaveNowhere(r, done) == r \in DOMAIN heap /\ ~done /\ Quiet

(* A stream that objects are written to and read from: a queue.            *)
QNew(q) == disk' = (q :> [k |-> "queue", v |-> <<>>]) @@ disk /\ UNCHANGED <<heap, memo>>
QPut(q, r) == /\ q \in DOMAIN disk /\ r \in DOMAIN heap /\ heap[r].k \in {"curve", "surf"}
              /\ disk' = [disk EXCEPT ![q].v = Append(@, heap[r])] /\ UNCHANGED <<heap, memo>>
QGet(d, q, kind, res) ==
    /\ q \in DOMAIN disk /\ disk[q].v # <<>> /\ Head(disk[q].v) = [k |-> kind, v |-> res]
    /\ heap' = (d :> [k |-> kind, v |-> res]) @@ heap
    /\ disk' = [disk EXCEPT ![q].v = Tail(@)] /\ UNCHANGED memo

(* Loading what was saved gives exactly that, whatever d held before.      *)
Load(d, f, res) == /\ f \in DOMAIN disk /\ res = disk[f].v /\ Put(d, disk[f].k, res)
(* Saving and loading an object too large to log: n points came back, bad   *)
(* numbers differ from what was saved.                                      *)
BulkRoundTrip(count, n, bad) == n = count /\ bad = 0 /\ Quiet
(* Loading the first n bytes of a saved binary file.                       *)
LoadCut(d, f, n, out) ==
    LET x == LoadPrefix(disk[f].v, disk[f].size, n)
    IN  /\ f \in DOMAIN disk
        /\ IF x.st = "err" THEN ~out.ok /\ Quiet
           ELSE out.ok /\ out.o = x.o /\ Put(d, disk[f].k, out.o)
(* Loading a binary file whose header or counts were overwritten; bad says *)
(* that the result is not a file of this kind.                             *)
LoadBad(d, out) == ~out.ok /\ Quiet
LoadTxt(d, kind, lines, out) ==
    /\ Is(LoadTextOK(FileKind(kind), lines, out))
    /\ IF out.ok THEN Put(d, kind, out.o) ELSE Quiet

---------------------------------------------------------------------------
(* After any history of shape-preserving operations that led from r0 to r. *)
StillSame(r0, r) ==
    /\ r0 \in DOMAIN heap /\ r \in DOMAIN heap /\ heap[r0].k = heap[r].k
    /\ Is(IF heap[r].k = "curve" THEN WellFormedCurve(Crv(r)) /\ SameCurve(Crv(r0), Crv(r), TolHistory, FALSE)
          ELSE WellFormedSurface(Srf(r)) /\ SameSurface(Srf(r0), Srf(r), TolHistory))
    /\ Quiet

---------------------------------------------------------------------------
(* Repetition: a call with the same operand and arguments as an earlier    *)
(* one returns the same.                                                   *)
Remember(call, src, res) == memo' = Append(memo, [call |-> call, src |-> src, res |-> res]) /\ UNCHANGED <<heap, disk>>
Repeat(n, call, src, res) ==
    /\ n \in 1..Len(memo)
    /\ Is((memo[n].call = call /\ memo[n].src = src) => memo[n].res = res)
    /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Invariants of the state machine, whatever the history.                  *)
AllCurvesWellFormed   == \A r \in DOMAIN heap : heap[r].k = "curve" => WellFormedCurve(heap[r].v)
AllSurfacesWellFormed == \A r \in DOMAIN heap : heap[r].k = "surf" => WellFormedSurface(heap[r].v)
=============================================================================
