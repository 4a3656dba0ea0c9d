------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Binds the state machine of Nurbs.tla to executions of the real library. *)
(*                                                                         *)
(* The driver (driver/) runs a script of calls and writes one JSON object  *)
(* per call: the operation, its arguments as the doubles the code saw, and *)
(* everything it returned.  Each event has to be a step of the             *)
(* specification with exactly those arguments and results.  A call that    *)
(* ended in an exception, a failed assertion, a sanitizer report or not at *)
(* all is recorded as such and matches no action, except where the         *)
(* specification demands an exception.                                     *)
(***************************************************************************)
EXTENDS Nurbs, Json, IOUtils

TraceFile == IOEnv.VQ_TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLE pos        \* next event
tvars == <<heap, disk, memo, pos>>

---------------------------------------------------------------------------
(* From JSON to values.                                                    *)
IsSeqOfLen(x, n) == Len(x) = n
N(str) == RParse(str)
Ns(x) == RParses(x)
PointsJ(x) == \A i \in 1..Len(x) : Len(x[i]) = 4 /\ RIsNums(x[i])
GoodCurve(o) == RIsNums(o.U) /\ PointsJ(o.P)
GoodSurf(o)  == RIsNums(o.U) /\ RIsNums(o.V) /\ PointsJ(o.P)
Pts(x) == TLCEval([i \in 1..Len(x) |-> RParses(x[i])])
CurveJ(o) == [p |-> o.p, U |-> RParses(o.U), P |-> Pts(o.P)]
SurfJ(o) == [pu |-> o.pu, pv |-> o.pv, U |-> RParses(o.U), V |-> RParses(o.V),
             nu |-> o.nu, nv |-> o.nv, P |-> Pts(o.P)]
NumJ(str) == IF RIsNum(str) THEN [num |-> TRUE, v |-> RParse(str)] ELSE [num |-> FALSE, v |-> Zero]
RowsNum(x) == \A i \in 1..Len(x) : RIsNums(x[i])
GoodObj(kind, o) == IF kind = "curve" THEN GoodCurve(o) ELSE GoodSurf(o)
ObjJ(kind, o) == IF kind = "curve" THEN CurveJ(o) ELSE SurfJ(o)

PairJ(q) == <<q[1], RParse(q[2]), q[3]>>

---------------------------------------------------------------------------
(* One event, one action.                                                  *)

Ok(e) == e.ok = 1

Make(e) ==
    CASE e.op = "curve" -> MakeCurve(e.r, CurveJ(e.o))
      [] e.op = "surf"  -> MakeSurface(e.r, SurfJ(e.o))
      [] e.op = "kv"    -> MakeKnots(e.r, Ns(e.U))

BasisStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "beval"   -> RIsNums(e.res) /\ BasisEval(e.r, e.p, N(e.x), Ns(e.res))
         [] e.op = "bevalat" -> RIsNums(e.res) /\ BasisEvalAt(e.r, e.p, e.k, N(e.x), Ns(e.res))
         [] e.op = "bders"   -> RowsNum(e.res) /\ BasisDers(e.r, e.p, N(e.x), e.m, Pts(e.res))
         [] e.op = "bdersat" -> RowsNum(e.res) /\ BasisDersAt(e.r, e.p, e.k, N(e.x), e.m, Pts(e.res))
         [] e.op = "bder"    -> RIsNums(e.res) /\ BasisDerOne(e.r, e.p, N(e.x), e.m, Ns(e.res))
         [] e.op = "bderat"  -> RIsNums(e.res) /\ BasisDerOneAt(e.r, e.p, e.k, N(e.x), e.m, Ns(e.res))

(* The claim of finding a point on a shape is for default precision.       *)
Known(e, n) == IF Len(e.init) <= n THEN Ns(e.at) ELSE <<>>

CurveStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "ceval"   -> RIsNums(e.res) /\ CEval(e.r, N(e.x), Ns(e.res))
         [] e.op = "cders"   -> RowsNum(e.res) /\ CDers(e.r, N(e.x), e.m, Pts(e.res))
         [] e.op = "cder"    -> RIsNums(e.res) /\ CDer(e.r, N(e.x), e.m, Ns(e.res))
         [] e.op = "crat"    -> CRational(e.r, e.res = 1)
         [] e.op = "cins"    -> GoodCurve(e.o) /\ CInsert(e.d, e.r, Ns(e.xs), CurveJ(e.o))
         [] e.op = "crem"    -> GoodCurve(e.o) /\ CRemove(e.d, e.r, N(e.x), e.n, N(e.tol), e.t, CurveJ(e.o))
         [] e.op = "celev"   -> GoodCurve(e.o) /\ CElevate(e.d, e.r, e.t, CurveJ(e.o))
         [] e.op = "cxform"  -> GoodCurve(e.o) /\ CTransform(e.d, e.r, Ns(e.M), CurveJ(e.o))
         [] e.op = "cbez"    -> /\ \A i \in 1..Len(e.segs) : GoodCurve(e.segs[i])
                                /\ CBezier(e.r, TLCEval([i \in 1..Len(e.segs) |-> CurveJ(e.segs[i])]))
         [] e.op = "cbox"    -> RIsNums(e.mn) /\ RIsNums(e.mx) /\ CBox(e.r, N(e.eps), Ns(e.mn), Ns(e.mx))
         [] e.op = "csearch" -> RIsNum(e.res) /\ CSearch(e.r, Ns(e.q), Known(e, 1), N(e.res))
         [] e.op = "cbsearch" -> RIsNum(e.res) /\ CBinSearch(e.r, Ns(e.q), Known(e, 0), N(e.res))

(* The derivative table arrives as the grid stores it, u running fastest;  *)
(* our order is (a, b) -> a * (mv + 1) + b + 1.                            *)
DerTable(e) == TLCEval([n \in 1..((e.a + 1) * (e.b + 1)) |->
                  LET a == (n - 1) \div (e.b + 1)  b == (n - 1) % (e.b + 1)
                  IN  RParses(e.tab[b * (e.a + 1) + a + 1])])
SurfStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "seval"   -> RIsNums(e.res) /\ SEval(e.r, N(e.x), N(e.y), Ns(e.res))
         [] e.op = "sders"   -> /\ e.nu = e.a + 1 /\ e.nv = e.b + 1
                                /\ Len(e.tab) = (e.a + 1) * (e.b + 1) /\ RowsNum(e.tab)
                                /\ SDers(e.r, N(e.x), N(e.y), e.a, e.b, DerTable(e))
         [] e.op = "sder"    -> RIsNums(e.res) /\ SDer(e.r, N(e.x), N(e.y), e.a, e.b, Ns(e.res))
         [] e.op = "srat"    -> SRational(e.r, e.res = 1)
         [] e.op = "sins"    -> GoodSurf(e.o) /\ SInsert(e.d, e.r, e.dir, Ns(e.xs), SurfJ(e.o))
         [] e.op = "srem"    -> GoodSurf(e.o) /\ SRemove(e.d, e.r, e.dir, N(e.x), e.n, N(e.tol), e.t, SurfJ(e.o))
         [] e.op = "selev"   -> GoodSurf(e.o) /\ SElevate(e.d, e.r, e.dir, e.t, SurfJ(e.o))
         [] e.op = "sxform"  -> GoodSurf(e.o) /\ STransform(e.d, e.r, Ns(e.M), SurfJ(e.o))
         [] e.op = "salign"  -> GoodSurf(e.o) /\ SAlign(e.d, e.r, e.au, e.av, SurfJ(e.o))
         [] e.op = "ssearch" -> RIsNums(e.res) /\ SSearch(e.r, Ns(e.q), Known(e, 2), N(e.res[1]), N(e.res[2]))
         [] e.op = "ssearchon" -> /\ RIsNums(e.res)
                                  /\ SSearchOn(e.r, Ns(e.q), e.dir, N(e.held), Known(e, 1), N(e.res[1]), N(e.res[2]))
         [] e.op = "sbsearchon" -> /\ RIsNums(e.res)
                                   /\ SBinSearchOn(e.r, Ns(e.q), e.dir, N(e.held), Known(e, 0), N(e.res[1]), N(e.res[2]))

GeomStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "gseg"  -> GoodCurve(e.o) /\ GSegment(e.d, e.p, e.n, Ns(e.A), Ns(e.B), CurveJ(e.o))
         [] e.op = "grect" -> GoodSurf(e.o) /\ GRect(e.d, e.pu, e.pv, e.nu, e.nv, Ns(e.LB), Ns(e.RB), Ns(e.LT), SurfJ(e.o))

KnotOut(e) == IF Ok(e) THEN [ok |-> TRUE, U |-> Ns(e.U)] ELSE [ok |-> FALSE, why |-> e.exc]
KnotStep(e) ==
    CASE e.op = "kvlist" -> /\ Ok(e) => RIsNums(e.U)
                            /\ KConstruct(e.d, TLCEval([i \in 1..Len(e.vs) |-> NumJ(e.vs[i])]), KnotOut(e))
      [] e.op = "kvpairs" -> /\ Ok(e) => RIsNums(e.U)
                             /\ KConstruct(e.d, Flatten(TLCEval([i \in 1..Len(e.ps) |-> <<NumJ(e.ps[i][1]), e.ps[i][2]>>])), KnotOut(e))
      [] e.op = "kvuni"  -> Ok(e) /\ RIsNums(e.U) /\ KUniform(e.d, e.p, e.n, Ns(e.U))
      [] e.op = "kspan"  -> Ok(e) /\ KSpanIndex(e.r, e.p, N(e.x), e.res)
      [] e.op = "kpairs" -> /\ Ok(e) /\ \A i \in 1..Len(e.res) : RIsNum(e.res[i][2])
                            /\ KPairs(e.r, TLCEval([i \in 1..Len(e.res) |-> PairJ(e.res[i])]))
      [] e.op = "kpspan" -> /\ Ok(e) /\ RIsNum(e.lft[2]) /\ RIsNum(e.rgt[2])
                            /\ KPairSpan(e.r, N(e.x), [idx |-> e.idx, l |-> PairJ(e.lft), r |-> PairJ(e.rgt)])
      [] e.op = "kmult"  -> Ok(e) /\ KMult(e.r, N(e.x), e.res)
      [] e.op = "kflags" -> Ok(e) /\ RIsNums(e.all) /\ KFlags(e.r, e.valid = 1, e.clamped = 1, e.uniform = 1, e.count, Ns(e.all))
      [] e.op = "kdeg"   -> KDegree(e.r, IF Ok(e) THEN [ok |-> TRUE, v |-> e.res] ELSE [ok |-> FALSE, why |-> e.exc])
      [] e.op = "kins"   -> Ok(e) /\ RIsNums(e.U) /\ KInsert(e.r, N(e.x), e.n, e.res, Ns(e.U))
      [] e.op = "krev"   -> Ok(e) /\ RIsNums(e.U) /\ KReverse(e.r, Ns(e.U))

GridStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "gnew"  -> GNew(e.r, e.nu, e.nv, e.x)
         [] e.op = "gset"  -> GSet(e.r, e.u, e.v, e.x)
         [] e.op = "gsetu" -> GSetU(e.r, e.u, e.xs)
         [] e.op = "gsetv" -> GSetV(e.r, e.v, e.xs)
         [] e.op = "ginsu" -> GInsU(e.r, e.k, e.x)
         [] e.op = "ginsv" -> GInsV(e.r, e.k, e.x)
         [] e.op = "ginsucell" -> GInsUCell(e.r, e.k, e.u, e.v)
         [] e.op = "ginsvcell" -> GInsVCell(e.r, e.k, e.u, e.v)
         [] e.op = "gget"  -> GGet(e.r, e.u, e.v, e.res)
         [] e.op = "ggetu" -> GGetU(e.r, e.u, e.res)
         [] e.op = "ggetv" -> GGetV(e.r, e.v, e.res)
         [] e.op = "gshow" -> GShow(e.r, e.nu, e.nv, e.count, e.stored, e.cells)

BoxStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "bxmake"  -> RIsNums(e.mn) /\ RIsNums(e.mx) /\ BMake(e.r, Ns(e.A), Ns(e.B), Ns(e.mn), Ns(e.mx))
         [] e.op = "bxpoint" -> RIsNums(e.mn) /\ RIsNums(e.mx) /\ BPoint(e.r, Ns(e.q), Ns(e.mn), Ns(e.mx))
         [] e.op = "bxbox"   -> RIsNums(e.mn) /\ RIsNums(e.mx) /\ BBox(e.r, e.s, Ns(e.mn), Ns(e.mx))
         [] e.op = "bxhas"   -> BHas(e.r, Ns(e.q), e.res = 1)
         [] e.op = "bxhasbox" -> BHasBox(e.r, e.s, e.res = 1)
         [] e.op = "bxmeas"  -> /\ RIsNums(e.ctr) /\ RIsNums(e.len) /\ RIsNum(e.vol)
                                /\ BMeasure(e.r, Ns(e.ctr), Ns(e.len), N(e.vol))

HelperStep(e) ==
    /\ Ok(e)
    /\ CASE e.op = "hbin"  -> HBinomial(e.n, e.k, e.res)
         [] e.op = "hfact" -> HFactorial(e.n, e.res)
         [] e.op = "happ"  -> HApprox(Ns(e.a), Ns(e.b), N(e.eps), e.res = 1)
         [] e.op = "hhomo" -> RIsNums(e.res) /\ HToHomo(Ns(e.p), Ns(e.res))
         [] e.op = "hcart" -> RIsNums(e.res) /\ HFromHomo(Ns(e.p), Ns(e.res))

LoadOut(e) == IF Ok(e) THEN [ok |-> TRUE, o |-> ObjJ(e.kind, e.o)] ELSE [ok |-> FALSE]
FileStep(e) ==
    CASE e.op = "bulk" -> Ok(e) /\ BulkRoundTrip(e.nu * e.nv, e.n, e.bad)
      [] e.op = "save" -> Ok(e) /\ Save(e.f, e.r, e.bytes)
      [] e.op = "saveroom" -> /\ Ok(e) => e.bytes = disk[e.f].size
                              /\ SaveRoom(e.g, e.f, e.r, e.room, Ok(e))
      [] e.op = "savenowhere" -> SaveNowhere(e.r, Ok(e))
      [] e.op = "qnew" -> Ok(e) /\ QNew(e.st)
      [] e.op = "qput" -> Ok(e) /\ QPut(e.st, e.r)
      [] e.op = "qget" -> Ok(e) /\ GoodObj(e.kind, e.o) /\ QGet(e.d, e.st, e.kind, ObjJ(e.kind, e.o))
      [] e.op = "load" -> Ok(e) /\ GoodObj(e.kind, e.o) /\ disk[e.f].k = e.kind /\ Load(e.d, e.f, ObjJ(e.kind, e.o))
      [] e.op = "loadcut" -> /\ Ok(e) => GoodObj(e.kind, e.o)
                             /\ disk[e.f].k = e.kind /\ LoadCut(e.d, e.f, e.n, LoadOut(e))
      [] e.op = "loadbad" -> ~Ok(e) /\ LoadBad(e.d, [ok |-> FALSE])
      [] e.op = "loadtxt" -> /\ Ok(e) => GoodObj(e.kind, e.o)
                             /\ LoadTxt(e.d, e.kind, e.lines, LoadOut(e))

(* Histories: operands stay, repeated calls repeat.                        *)
HistStep(e) ==
    CASE e.op = "same"   -> StillSame(e.r0, e.r)
      [] e.op = "kept"   -> e.same = 1 /\ UNCHANGED vars
      [] e.op = "memo"   -> Remember(e.call, heap[e.r], e.res)
      [] e.op = "again"  -> Repeat(e.n, e.call, heap[e.r], e.res)
      [] e.op = "reset"  -> heap' = <<>> /\ disk' = <<>> /\ memo' = <<>>

ThreadStep(e) ==
    CASE e.op = "par" -> e.race = 0 /\ UNCHANGED vars      \* a batch of concurrent calls
      [] e.op = "alone" -> Remember(e.call, heap[e.r], e.res)
      [] e.op = "shared" -> Repeat(e.n, e.call, heap[e.r], e.res)

MakeOps  == {"curve", "surf", "kv"}
BasisOps == {"beval", "bevalat", "bders", "bdersat", "bder", "bderat"}
CurveOps == {"ceval", "cders", "cder", "crat", "cins", "crem", "celev", "cxform", "cbez", "cbox", "csearch", "cbsearch"}
SurfOps  == {"seval", "sders", "sder", "srat", "sins", "srem", "selev", "sxform", "salign", "ssearch", "ssearchon", "sbsearchon"}
GeomOps  == {"gseg", "grect"}
KnotOps  == {"kvlist", "kvpairs", "kvuni", "kspan", "kpairs", "kpspan", "kmult", "kflags", "kdeg", "kins", "krev"}
GridOps  == {"gnew", "gset", "gsetu", "gsetv", "ginsu", "ginsv", "ginsucell", "ginsvcell", "gget", "ggetu", "ggetv", "gshow"}
BoxOps   == {"bxmake", "bxpoint", "bxbox", "bxhas", "bxhasbox", "bxmeas"}
FileOps  == {"bulk", "save", "saveroom", "savenowhere", "qnew", "qput", "qget", "load", "loadcut", "loadbad", "loadtxt"}
HelperOps == {"hbin", "hfact", "happ", "hhomo", "hcart"}
HistOps  == {"same", "kept", "memo", "again", "reset"}
ThreadOps == {"par", "alone", "shared"}

Step(e) ==
    CASE e.op \in MakeOps  -> Make(e)
      [] e.op \in BasisOps -> BasisStep(e)
      [] e.op \in CurveOps -> CurveStep(e)
      [] e.op \in SurfOps  -> SurfStep(e)
      [] e.op \in GeomOps  -> GeomStep(e)
      [] e.op \in KnotOps  -> KnotStep(e)
      [] e.op \in GridOps  -> GridStep(e)
      [] e.op \in BoxOps   -> BoxStep(e)
      [] e.op \in FileOps  -> FileStep(e)
      [] e.op \in HelperOps -> HelperStep(e)
      [] e.op \in HistOps  -> HistStep(e)
      [] e.op \in ThreadOps -> ThreadStep(e)
      [] OTHER -> FALSE          \* crash, hang, race: no action of the specification

TraceInit == NurbsInit /\ pos = 1
TraceNext == /\ pos <= Len(Trace)
             /\ Step(Trace[pos])
             /\ pos' = pos + 1
TraceView == pos            \* a trace has one continuation
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Every event consumed: one state per event, and the initial one.         *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  PrintT(<<"VQ-ACCEPTED", d - 1, Len(Trace)>>)
=============================================================================
