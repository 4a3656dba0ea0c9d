----------------------------- MODULE MCSurface ------------------------------
(***************************************************************************)
(* Small surfaces, all of them within the bounds, and every sequence of    *)
(* operations up to MaxDepth.  Same construction as MCCurve.               *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS DegPairs,    \* degrees, as numbers 10 pu + pv
          IntU, IntV,  \* interior knots in eighths: 0 for none, 344 for <<3, 4, 4>>
          Weights,     \* weight patterns, a subset of 1..6
          KnotVals,    \* values to insert and remove, as numbers of eighths
          Moves,       \* subset of {"insu", "insv", "remu", "remv", "elevu", "elevv"}
          Queries,     \* subset of {"eval", "ders", "xform", "rat", "ratx", "io", "cut", "patch"}
          MaxDepth, MaxDegree,
          Frontier,    \* also check the relations on states at MaxDepth
          Direct       \* print the object itself, not the operations that led to it

VARIABLES start, hist
mcvars == <<heap, disk, memo, start, hist>>

WeightAt(pat, i, j) ==
    CASE pat = 1 -> One
      [] pat = 2 -> IF (i + j) % 2 = 0 THEN One ELSE Half
      [] pat = 3 -> Q(1 + ((i * i + 3 * j + i * j) % 5), 2)
      [] pat = 4 -> IF i = 0 /\ j = 0 THEN Q(3, 1) ELSE One
      [] pat = 5 -> Q(5, 1)
      [] pat = 6 -> RAdd(One, RMul(RInt((i + 2 * j) % 2), Q(1, 1048576)))
PointAt(pat, i, j) ==
    <<RInt(((i * i * 7 + j) % 11) - 4), Q((((i + 2 * j) * 5) % 7) * (IF j % 2 = 0 THEN 1 ELSE -1), 2),
      Q((i * 3 + j * j) % 5, 4), WeightAt(pat, i, j)>>
StartSurfaces ==
    UNION {LET nu == d[1] + 1 + Len(su)  nv == d[2] + 1 + Len(sv)
           IN  {[pu |-> d[1], pv |-> d[2], U |-> MakeKnotSeq(d[1], su), V |-> MakeKnotSeq(d[2], sv), nu |-> nu, nv |-> nv,
                 P |-> TLCEval([n \in 1..(nu * nv) |-> PointAt(w, (n - 1) % nu, (n - 1) \div nu)])] : w \in Weights}
             : d \in {<<n \div 10, n % 10>> : n \in DegPairs}, su \in {Digits(n) : n \in IntU}, sv \in {Digits(n) : n \in IntV}}
OKStart(x) == /\ \A k \in 1..Len(x.U) : RLt(Zero, x.U[k]) /\ RLt(x.U[k], One) => Mult(x.U, x.U[k]) <= x.pu
              /\ \A k \in 1..Len(x.V) : RLt(Zero, x.V[k]) /\ RLt(x.V[k], One) => Mult(x.V, x.V[k]) <= x.pv

s == heap["a"].v

---------------------------------------------------------------------------
(* Exact results, in u; v by exchanging the parameters.                    *)
RowsToNet(rows, nu, nv) == TLCEval([n \in 1..(nu * nv) |-> rows[((n - 1) \div nu) + 1][((n - 1) % nu) + 1]])
MapRows(x, U2, p2, F(_)) ==
    LET rows == TLCEval([j \in 1..x.nv |-> CartSeq(F(HomoSeq(NetRow(x, j - 1))))])
    IN  [x EXCEPT !.pu = p2, !.U = U2, !.nu = Len(rows[1]), !.P = RowsToNet(rows, Len(rows[1]), x.nv)]
SurfInsertU(x, xs) == LET F(H) == InsertRow(x.pu, x.U, H, xs) IN MapRows(x, InsertAll(x.U, xs), x.pu, F)
SurfElevateU(x, t) == LET F(H) == ElevateRow(x.pu, x.U, H, t) IN MapRows(x, ElevateKnots(x.U, t), x.pu + t, F)
SurfRemoveU(x, u, t) == LET F(H) == RemoveRow(x.pu, x.U, H, u, t) IN MapRows(x, RemoveKnots(x.U, u, t), x.pu, F)
RECURSIVE MinRed(_, _, _)
MinRed(x, u, j) ==
    IF j = x.nv THEN 99 ELSE IMin(Redundant(x.pu, x.U, HomoSeq(NetRow(x, j)), u), MinRed(x, u, j + 1))
SurfRedundantU(x, u) == IF Mult(x.U, u) = 0 THEN 0 ELSE MinRed(x, u, 0)

InsertLists(U, p) ==
    LET V == {Eighth(v) : v \in KnotVals}
    IN  {xs \in {<<v>> : v \in V} \cup {<<v, w>> : v \in V, w \in IF Direct THEN V ELSE {}} :
            \A i \in 1..Len(xs) : Mult(InsertAll(U, xs), xs[i]) <= p}
InsertForm(xs) == IF Len(xs) = 1 THEN "one" ELSE IF REq(xs[1], xs[2]) THEN "times" ELSE "list"
Turn(x, dir) == IF dir = "u" THEN x ELSE SwapUV(x)
Move(op, dir, xs, n, t, u, name, cmd) ==
    [op |-> op, dir |-> dir, xs |-> xs, n |-> n, t |-> t, u |-> u, pre |-> <<>>, name |-> name, cmd |-> " a " \o dir \o " " \o cmd]
InsertMoves(x, dir) ==
    {Move("ins", dir, xs, 0, 0, Zero, "sins", InsertForm(xs) \o " " \o ListS(xs))
       : xs \in IF dir = "u" THEN InsertLists(x.U, x.pu) ELSE InsertLists(x.V, x.pv)}
RemTol == E(9)
RemoveMoves(x, dir) ==
    {Move("rem", dir, <<>>, n, 0, u, "srem", RShow(u) \o " " \o Str(n) \o " 1e-9")
       : u \in {Eighth(v) : v \in KnotVals}, n \in IF Direct THEN 1..3 ELSE {2}}
(* Saving and loading back, in the given form.                             *)
SaveMoves(x) ==
    {[Move("io", "u", <<>>, 0, 0, Zero, "load", "") EXCEPT !.pre = <<"save f a " \o f[1]>>, !.cmd = " f " \o f[2]]
       : f \in {<<"tf", "f">>, <<"bs", "s">>}}
ElevateMoves(x, dir) ==
    {Move("elev", dir, <<>>, 0, t, Zero, "selev", Str(t))
       : t \in {t \in (IF Direct THEN 1..2 ELSE {1}) : (IF dir = "u" THEN x.pu ELSE x.pv) + t <= MaxDegree}}
AllMoves(x) ==
    (IF "insu" \in Moves THEN InsertMoves(x, "u") ELSE {}) \cup
    (IF "insv" \in Moves THEN InsertMoves(x, "v") ELSE {}) \cup
    (IF "remu" \in Moves THEN RemoveMoves(x, "u") ELSE {}) \cup
    (IF "remv" \in Moves THEN RemoveMoves(x, "v") ELSE {}) \cup
    (IF "elevu" \in Moves THEN ElevateMoves(x, "u") ELSE {}) \cup
    (IF "elevv" \in Moves THEN ElevateMoves(x, "v") ELSE {}) \cup
    (IF "io" \in Moves THEN SaveMoves(x) ELSE {})

(* The exact result of a move, with the number of removed knots.           *)
Result(x, m) ==
    LET y == Turn(x, m.dir)
        t == IMin(m.n, SurfRedundantU(y, m.u))
    IN  CASE m.op = "ins"  -> <<0, Turn(SurfInsertU(y, m.xs), m.dir)>>
          [] m.op = "rem"  -> IF t = 0 THEN <<0, x>> ELSE <<t, Turn(SurfRemoveU(y, m.u, t), m.dir)>>
          [] m.op = "elev" -> <<0, Turn(SurfElevateU(y, m.t), m.dir)>>
          [] m.op = "io" -> <<0, x>>
(* The relation that judges the real code accepts it.                      *)
Accepts(x, m, r) ==
    LET y == Turn(x, m.dir)  z == Turn(r[2], m.dir)
    IN  CASE m.op = "ins"  -> SurfInsertUOK(y, m.xs, z)
          [] m.op = "rem"  -> SurfRemoveUOK(y, m.u, m.n, RemTol, r[1], z)
          [] m.op = "elev" -> SurfElevateUOK(y, m.t, z)
          [] m.op = "io" -> r[2] = x

Init == \E b \in {x \in StartSurfaces : OKStart(x)} :
          /\ heap = ("a" :> [k |-> "surf", v |-> b]) /\ disk = <<>> /\ memo = <<>>
          /\ start = b /\ hist = <<<<SurfS("a", b)>>>>
Next == /\ Len(hist) <= MaxDepth
        /\ \E m \in AllMoves(s) :
             LET r == TLCEval(Result(s, m))
             IN  /\ Assert(Accepts(s, m, r), m)      \* so it is a step of Nurbs.tla
                 /\ Put("a", "surf", r[2])
                 /\ hist' = Append(hist, m.pre \o <<m.name \o " a" \o m.cmd>>) /\ UNCHANGED start
Spec == Init /\ [][Next]_mcvars
View == <<heap, start, IF Direct THEN <<>> ELSE hist>>      \* histories: all of them

---------------------------------------------------------------------------
(* Invariants.                                                             *)
WellFormed == WellFormedSurface(s)
SameShape == Moves # {} => SameSurface(start, s, Zero)

Conforms == (Frontier /\ Len(hist) > MaxDepth) => \A m \in AllMoves(s) : Accepts(s, m, TLCEval(Result(s, m)))

(* Insertions in different directions commute.                             *)
Commute == ("insu" \in Moves /\ "insv" \in Moves) =>
    \A v \in KnotVals : \A w \in KnotVals :
      LET x == Eighth(v)  y == Eighth(w)
      IN  (Mult(s.U, x) < s.pu /\ Mult(s.V, y) < s.pv) =>
            SwapUV(SurfInsertU(SwapUV(SurfInsertU(s, <<x>>)), <<y>>)) = SurfInsertU(SwapUV(SurfInsertU(SwapUV(s), <<y>>)), <<x>>)

Axis(U) == LET b == Breaks(U) IN AsSeq({b[i] : i \in 1..Len(b)} \cup {Eighth(3), Q(1, 3)})
Pars == LET xs == Axis(s.U)  ys == Axis(s.V)
        IN  TLCEval([n \in 1..(Len(xs) * Len(ys)) |-> <<xs[((n - 1) % Len(xs)) + 1], ys[((n - 1) \div Len(xs)) + 1]>>])

(* Corners are met; exchanging the parameters exchanges the arguments; a   *)
(* value at fixed y is a value of the curve of the rows' values.           *)
Evaluation == "eval" \in Queries =>
    /\ SurfAt(s, Zero, Zero) = XYZ(Net(s, 0, 0)) /\ SurfAt(s, One, Zero) = XYZ(Net(s, s.nu - 1, 0))
    /\ SurfAt(s, Zero, One) = XYZ(Net(s, 0, s.nv - 1)) /\ SurfAt(s, One, One) = XYZ(Net(s, s.nu - 1, s.nv - 1))
    /\ LET pp == Pars IN \A n \in 1..Len(pp) :
         LET x == pp[n][1]  y == pp[n][2]
             cols == TLCEval([j \in 1..s.nv |-> Cart(CurveH([p |-> s.pu, U |-> s.U, P |-> NetRow(s, j - 1)], x))])
             v == SurfAt(s, x, y)
         IN  /\ v = SurfAt(SwapUV(s), y, x)
             /\ v = CurveAt([p |-> s.pv, U |-> s.V, P |-> cols], y)
             /\ SurfEvalOK(s, x, y, v)
Derivatives == "ders" \in Queries =>
    LET pp == Pars IN \A n \in 1..Len(pp) : n % 3 = 1 =>
      LET x == pp[n][1]  y == pp[n][2]
          a == s.pu + 1    b == s.pv + 1
          d == SurfDers(s, x, y, a, b)
          e == SurfDers(SwapUV(s), y, x, b, a)
          row == CurveDers([p |-> s.pu, U |-> s.U, P |-> NetRow(s, 0)], x, a)
      IN  /\ d[1] = SurfAt(s, x, y)
          /\ \A i \in 0..a : \A j \in 0..b : d[i * (b + 1) + j + 1] = e[j * (a + 1) + i + 1]
          /\ REq(y, Zero) => \A i \in 0..a : d[i * (b + 1) + 1] = row[i + 1]
          /\ SurfDersOK(s, x, y, a, b, d)

---------------------------------------------------------------------------
(* A damaged binary file: header words and element counts overwritten.     *)
Patches ==
    LET h == HeaderLen("SURFACE")
        Bad(n) == <<"loadpatch y g s " \o Str(n) \o " ffffffff", "loadpatch y g f " \o Str(n) \o " 00000080", "loadpatch y g s " \o Str(n) \o " f0ffffff">>
        dims == h + 16 + 8 * Len(s.U) + 8 * Len(s.V)
    IN  [n \in 1..8 |-> "loadpatch y g s " \o Str(n - 1) \o " 3f"]
        \o <<"loadpatch y g s 9 62696e", "loadpatch y g s 11 4d", "loadpatch y g f 13 58", "loadpatch y g s 19 56", "loadpatch y g s 8 5f", "loadpatch y g s 13 435552564500">>
        \o Bad(h + 8) \o Bad(h + 12 + 8 * Len(s.U)) \o Bad(dims) \o Bad(dims + 4)
        \o <<"loadpatch y g s " \o Str(dims) \o " fffffffffeffffff", "loadpatch y g s " \o Str(dims) \o " 0000010000000100",
             "loadpatch y g f " \o Str(dims) \o " 0000004004000000", "loadpatch y g s " \o Str(dims) \o " ffffff7fffffff7f">>

QueryCmds ==
    LET pp == Pars
        RECURSIVE Ev(_)
        Ev(i) == IF i > Len(pp) THEN <<>> ELSE <<"seval a " \o NumsS(pp[i])>> \o Ev(i + 1)
        RECURSIVE Dr(_)
        Dr(i) == IF i > Len(pp) THEN <<>>
                 ELSE <<"sders a " \o NumsS(pp[i]) \o " " \o Str(i % (s.pu + 2)) \o " " \o Str((i \div 2) % (s.pv + 2)),
                        "sder a " \o NumsS(pp[i]) \o " " \o Str((i + 1) % (s.pu + 2)) \o " " \o Str((i \div 3) % (s.pv + 2))>> \o Dr(i + 1)
    IN  (IF "eval" \in Queries THEN Ev(1) ELSE <<>>)
        \o (IF "ders" \in Queries THEN Dr(1) ELSE <<>>)
        \o (IF "rat" \in Queries THEN <<"srat a">> ELSE <<>>)
        \o (IF "xform" \in Queries THEN <<"sxform z a 0 -1 0 1 0 0 0 0 1", "sxform z a 1/2 2 -3 0 5 7/3 1 1 1",
                                          "sxform z a 0 0 0 1 1 1 0 0 0">> ELSE <<>>)
        \o (IF "ratx" \in Queries THEN <<"srat a", "sxform z a 1/2 2 -3 0 5 7/3 1 1 1", "srat z", "sxform z a 0 0 0 0 0 0 0 0 0", "srat z">> ELSE <<>>)
        \o (IF "io" \in Queries
            THEN <<"save f a ts", "save g a bs", "load y f s", "load y g s", "load y f s", "save f y tf", "load x f f",
                   "save g y bf", "load x g f">> ELSE <<>>)
        \o (IF "cut" \in Queries
            THEN LET size == HeaderLen("SURFACE") + BinaryLen("SURFACE", s)
                 IN  <<"save g a bs">> \o [n \in 1..size |-> "loadcut y g " \o (IF n % 5 = 0 THEN "f " ELSE "s ") \o Str(n - 1)]
                     \o <<"loadcut y g s " \o Str(size), "loadcut y g s -1", "loadcut y g f -8", "load y g s">>
            ELSE <<>>)
        \o (IF "patch" \in Queries THEN <<"save g a bs">> \o Patches ELSE <<>>)
MoveCmds == AsSeq({m.name \o " z" \o m.cmd : m \in AllMoves(s)})

(* A whole history, as in MCCurve.                                         *)
Calls == <<"seval o 1/3 3/8", "sder o 3/8 1/2 1 1", "selev y o u 1", "sins y o v one 1 3/8">>
RECURSIVE FlatHist(_)
FlatHist(i) == IF i > Len(hist) THEN <<>> ELSE [n \in 1..Len(hist[i]) |-> "@k " \o hist[i][n]] \o FlatHist(i + 1)
History ==
    <<SurfS("o", start), SurfS("a", start)>> \o [n \in 1..Len(Calls) |-> "@m " \o Calls[n]] \o FlatHist(2)
    \o <<"same o a">> \o [n \in 1..Len(Calls) |-> "@r" \o Str(n) \o " " \o Calls[n]]

Emit == IF Direct THEN Behaviour(<<SurfS("a", s)>> \o QueryCmds \o (IF Len(hist) <= MaxDepth THEN MoveCmds ELSE <<>>))
        ELSE Len(hist) > MaxDepth => Behaviour(History)
=============================================================================
