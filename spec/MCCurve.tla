------------------------------ MODULE MCCurve -------------------------------
(***************************************************************************)
(* Small curves, all of them: every degree, interior knot pattern and      *)
(* weight pattern within the bounds, and every sequence of operations up   *)
(* to MaxDepth.  The state is one curve; its history of commands is kept   *)
(* outside the view.  In every state the invariants below are checked, and *)
(* the behaviour that leads there is printed together with every query and *)
(* every further operation that is enabled, for replay against the code.   *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Degrees,     \* degrees of the starting curves
          MaxInterior, \* number of interior knots of a starting curve
          Weights,     \* weight patterns, a subset of 1..5
          KnotVals,    \* interior knot values, as numbers of eighths
          Moves,       \* operations: subset of {"ins", "rem", "elev"}
          Queries,     \* subset of {"eval", "ders", "bez", "box", "xform", "rat", "ratx", "io", "cut", "patch"}
          MaxDepth, MaxDegree,
          Frontier,    \* also check the relations on states at MaxDepth
          Direct       \* print the object itself, not the operations that led to it

VARIABLES start, hist
mcvars == <<heap, disk, memo, start, hist>>

WeightAt(pat, i) ==
    CASE pat = 1 -> One
      [] pat = 2 -> IF i % 2 = 0 THEN One ELSE Half
      [] pat = 3 -> Q(1 + ((i * i) % 5), 2)
      [] pat = 4 -> IF i = 0 THEN Q(3, 1) ELSE One                       \* only the first differs
      [] pat = 5 -> Q(5, 1)                                              \* all equal, not 1
      [] pat = 6 -> RAdd(One, RMul(RInt(i % 2), Q(1, 1048576)))          \* barely different
PointAt(pat, i) ==
    <<RInt(((i * i * 7) % 11) - 4), Q(((i * 5) % 7) * (IF i % 2 = 0 THEN 1 ELSE -1), 2), Q((i * 3) % 5, 4), WeightAt(pat, i)>>

StartCurves ==
    UNION {{[p |-> p, U |-> MakeKnotSeq(p, s), P |-> TLCEval([i \in 1..(p + 1 + Len(s)) |-> PointAt(w, i - 1)])]
             : s \in InteriorSeqs(KnotVals, MaxInterior, p), w \in Weights} : p \in Degrees}

---------------------------------------------------------------------------
c == heap["a"].v

(* Operations: [cmd, res] where cmd is the command with target register T. *)
InsertLists(cv) ==
    LET ok(xs) == \A i \in 1..Len(xs) : Mult(InsertAll(cv.U, xs), xs[i]) <= cv.p
        V == {Eighth(v) : v \in KnotVals}
    IN  {xs \in {<<v>> : v \in V} \cup {<<v, w>> : v \in V, w \in IF Direct THEN V ELSE {Half}} : ok(xs)}
InsertForm(xs) == IF Len(xs) = 1 THEN "one" ELSE IF REq(xs[1], xs[2]) THEN "times" ELSE "list"
Move(op, xs, n, t, u, name, cmd) ==
    [op |-> op, xs |-> xs, n |-> n, t |-> t, u |-> u, pre |-> <<>>, name |-> name, cmd |-> " a " \o cmd]
InsertMoves(cv) ==
    {Move("ins", xs, 0, 0, Zero, "cins", InsertForm(xs) \o " " \o ListS(xs)) : xs \in InsertLists(cv)}
RemTol == E(9)
RemoveMoves(cv) ==
    {Move("rem", <<>>, n, 0, u, "crem", RShow(u) \o " " \o Str(n) \o " 1e-9")
       : u \in {Eighth(v) : v \in KnotVals}, n \in IF Direct THEN 1..3 ELSE {1, 3}}
(* Saving and loading back, in the given form.                             *)
SaveMoves(cv) ==
    {[Move("io", <<>>, 0, 0, Zero, "load", "") EXCEPT !.pre = <<"save f a " \o f[1]>>, !.cmd = " f " \o f[2]] : f \in {<<"ts", "s">>, <<"bf", "f">>}}
ElevateMoves(cv) ==
    {Move("elev", <<>>, 0, t, Zero, "celev", Str(t)) : t \in {t \in (IF Direct THEN 1..2 ELSE {1}) : cv.p + t <= MaxDegree}}
AllMoves(cv) ==
    (IF "ins" \in Moves THEN InsertMoves(cv) ELSE {}) \cup
    (IF "rem" \in Moves THEN RemoveMoves(cv) ELSE {}) \cup
    (IF "elev" \in Moves THEN ElevateMoves(cv) ELSE {}) \cup
    (IF "io" \in Moves THEN SaveMoves(cv) ELSE {})

(* The exact result of a move, with the number of removed knots.           *)
Result(cv, m) ==
    LET red == IF Mult(cv.U, m.u) = 0 THEN 0 ELSE Redundant(cv.p, cv.U, HomoSeq(cv.P), m.u)
        t == IMin(m.n, red)
    IN  CASE m.op = "ins"  -> <<0, CurveInsert(cv, m.xs)>>
          [] m.op = "rem"  -> IF t = 0 THEN <<0, cv>> ELSE <<t, CurveRemove(cv, m.u, t)>>
          [] m.op = "elev" -> <<0, CurveElevate(cv, m.t)>>
          [] m.op = "io" -> <<0, cv>>
(* The relation that judges the real code accepts it; independent          *)
(* constructions of the same result agree.                                 *)
Accepts(cv, m, r) ==
    CASE m.op = "ins"  -> /\ CurveInsertOK(cv, m.xs, r[2])
                          /\ HomoSeq(r[2].P) = InsertRowBlossom(cv.p, cv.U, HomoSeq(cv.P), m.xs)
                          \* in the other order: the same
                          /\ r[2] = CurveInsert(cv, ReverseSeq(m.xs))
      [] m.op = "rem"  -> CurveRemoveOK(cv, m.u, m.n, RemTol, r[1], r[2])
      [] m.op = "elev" -> /\ CurveElevateOK(cv, m.t, r[2])
                          /\ m.t = 2 => r[2] = CurveElevate(CurveElevate(cv, 1), 1)
      [] m.op = "io"   -> r[2] = cv

Init == \E b \in StartCurves :
          /\ heap = ("a" :> [k |-> "curve", v |-> b]) /\ disk = <<>> /\ memo = <<>>
          /\ start = b /\ hist = <<<<CurveS("a", b)>>>>
Next == /\ Len(hist) <= MaxDepth
        /\ \E m \in AllMoves(c) :
             LET r == TLCEval(Result(c, m))
             IN  /\ Assert(Accepts(c, m, r), m)      \* so it is a step of Nurbs.tla
                 /\ Put("a", "curve", r[2])
                 /\ hist' = Append(hist, m.pre \o <<m.name \o " a" \o m.cmd>>) /\ UNCHANGED start
Spec == Init /\ [][Next]_mcvars
View == <<heap, start, IF Direct THEN <<>> ELSE hist>>      \* histories: all of them

---------------------------------------------------------------------------
(* Invariants.                                                             *)

Params == ParamsOf(c.U)
WellFormed == WellFormedCurve(c)

(* The curve is at every point the one we started with: same function,     *)
(* exactly.                                                                *)
SameShape == SameCurve(start, c, Zero, FALSE)

(* Every exact result satisfies the relation that judges the real code.    *)
Conforms == (Frontier /\ Len(hist) > MaxDepth) => \A m \in AllMoves(c) : Accepts(c, m, TLCEval(Result(c, m)))

(* Inserting and then removing the same knots is the identity.             *)
InsertRemove == ("rem" \in Moves /\ "ins" \in Moves) => \A xs \in InsertLists(c) :
    Len(xs) = 1 => LET r == CurveInsert(c, xs) IN /\ Redundant(r.p, r.U, HomoSeq(r.P), xs[1]) >= 1
                                                  /\ CurveRemove(r, xs[1], 1) = c

(* Evaluation: three independent definitions agree; the ends are met;      *)
(* every value lies in the box of the local control points.                *)
Evaluation == "eval" \in Queries =>
    /\ CurveAt(c, Zero) = XYZ(c.P[1]) /\ CurveAt(c, One) = XYZ(c.P[Len(c.P)])
    /\ LET pp == Params IN \A i \in 1..Len(pp) :
         LET x == pp[i]
             k == Span(c.U, x)
             b == BasisAt(c.p, c.U, k, x)
             v == CurveAt(c, x)
             L == Local(c.P, c.p, k)
         IN  /\ REq(RSum(b), One) /\ \A j \in 1..Len(b) : RLe(Zero, b[j])
             /\ Blossom(c.p, c.U, HomoSeq(c.P), k, [j \in 1..c.p |-> x]) = CurveH(c, x)
             /\ \A e \in 1..3 : /\ \E j \in 1..Len(L) : RLe(v[e], L[j][e])
                                /\ \E j \in 1..Len(L) : RLe(L[j][e], v[e])
             /\ CurveEvalOK(c, x, v)

(* Derivatives: the Taylor series of the homogeneous curve at x gives its  *)
(* value elsewhere in the span; derivatives times weight function is the   *)
(* Leibniz rule.                                                           *)
Derivatives == "ders" \in Queries =>
    LET pp == Params IN \A i \in 1..Len(pp) :
        LET x == pp[i]
            k == Span(c.U, x)
            H == CurveSeriesAtH(c, k, x, c.p)
            y == RMul(Half, RAdd(K(c.U, k), K(c.U, k + 1)))
            h == RSub(y, x)
            d == CurveDers(c, x, c.p + 2)
            m == c.p + 2
            HH == CurveSeriesAtH(c, k, x, m)
        IN  /\ RComb([j \in 1..(c.p + 1) |-> RPow(h, j - 1)], H) = RComb(BasisAt(c.p, c.U, k, y), HomoSeq(Local(c.P, c.p, k)))
            /\ d[1] = CurveAt(c, x)
            /\ \A n \in 0..m : \A e \in 1..3 :
                 REq(RMul(RFact(n), HH[n + 1][e]),
                     RSum([j \in 1..(n + 1) |-> RMul(RBinom(n, j - 1), RMul(RMul(RFact(j - 1), HH[j][4]), d[n - j + 2][e]))]))
            /\ CurveDersOK(c, x, m, d)

(* Bezier pieces.                                                          *)
Pieces == "bez" \in Queries =>
    LET g == CurveBezier(c)
    IN  /\ BezierOK(c, g)
        /\ \A n \in 1..(Len(g) - 1) : Homo(g[n].P[c.p + 1]) = Homo(g[n + 1].P[1])

Rationality == Rational(c.P) = Rational(start.P) \/ Moves # {}

---------------------------------------------------------------------------
(* Printing.                                                               *)

(* A damaged binary file: header words and element counts overwritten.     *)
Patches ==
    LET h == HeaderLen("CURVE")
        Bad(n) == <<"loadpatch y g s " \o Str(n) \o " ffffffff", "loadpatch y g f " \o Str(n) \o " 00000080", "loadpatch y g s " \o Str(n) \o " f0ffffff">>
    IN  [n \in 1..8 |-> "loadpatch y g s " \o Str(n - 1) \o " 3f"]
        \o <<"loadpatch y g s 9 62696e", "loadpatch y g s 11 4d", "loadpatch y g f 13 58", "loadpatch y g s 17 56", "loadpatch y g s 8 5f", "loadpatch y g s 13 5355524641">>
        \o Bad(h + 4) \o Bad(h + 8 + 8 * Len(c.U))

QueryCmds ==
    LET P == Params
        RECURSIVE Ev(_)
        Ev(i) == IF i > Len(P) THEN <<>> ELSE <<"ceval a " \o RShow(P[i])>> \o Ev(i + 1)
        RECURSIVE Dr(_)
        Dr(i) == IF i > Len(P) THEN <<>>
                 ELSE <<"cders a " \o RShow(P[i]) \o " " \o Str(c.p + 1), "cder a " \o RShow(P[i]) \o " " \o Str(i % (c.p + 3))>> \o Dr(i + 1)
    IN  (IF "eval" \in Queries THEN Ev(1) ELSE <<>>)
        \o (IF "ders" \in Queries THEN Dr(1) ELSE <<>>)
        \o (IF "bez" \in Queries THEN <<"cbez a">> ELSE <<>>)
        \o (IF "box" \in Queries THEN <<"cbox a 1/4", "cbox a 1/50">> ELSE <<>>)
        \o (IF "rat" \in Queries THEN <<"crat a">> ELSE <<>>)
        \o (IF "xform" \in Queries THEN <<"cxform z a 0 -1 0 1 0 0 0 0 1", "cxform z a 1/2 2 -3 0 5 7/3 1 1 1",
                                          "cxform z a 0 0 0 1 1 1 0 0 0">> ELSE <<>>)
        \o (IF "ratx" \in Queries THEN <<"crat a", "cxform z a 1/2 2 -3 0 5 7/3 1 1 1", "crat z", "cxform z a 0 0 0 0 0 0 0 0 0", "crat z">> ELSE <<>>)
        \o (IF "io" \in Queries
            THEN <<"save f a ts", "save g a bs", "load y f s", "load y g s", "load y f s", "save f y tf", "load x f f",
                   "save g y bf", "load x g f">> ELSE <<>>)
        \o (IF "cut" \in Queries
            THEN LET size == HeaderLen("CURVE") + BinaryLen("CURVE", c)
                 IN  <<"save g a bs">> \o [n \in 1..size |-> "loadcut y g " \o (IF n % 5 = 0 THEN "f " ELSE "s ") \o Str(n - 1)]
                     \o <<"loadcut y g s " \o Str(size), "loadcut y g s -1", "loadcut y g f -8", "load y g s">>
            ELSE <<>>)
        \o (IF "patch" \in Queries THEN <<"save g a bs">> \o Patches ELSE <<>>)
MoveCmds == LET ms == AsSeq({m.name \o " z" \o m.cmd : m \in AllMoves(c)}) IN ms

(* A whole history: the original stays in register o; calls on it before   *)
(* and after the history return the same; the end is the same shape.       *)
Calls == <<"ceval o 1/3", "cder o 3/8 1", "celev y o 1", "cins y o one 1 3/8", "cbez o">>
RECURSIVE FlatHist(_)
FlatHist(i) == IF i > Len(hist) THEN <<>> ELSE [n \in 1..Len(hist[i]) |-> "@k " \o hist[i][n]] \o FlatHist(i + 1)
History ==
    <<CurveS("o", start), CurveS("a", start)>> \o [n \in 1..Len(Calls) |-> "@m " \o Calls[n]] \o FlatHist(2)
    \o <<"same o a">> \o [n \in 1..Len(Calls) |-> "@r" \o Str(n) \o " " \o Calls[n]]

Emit == IF Direct THEN Behaviour(<<CurveS("a", c)>> \o QueryCmds \o (IF Len(hist) <= MaxDepth THEN MoveCmds ELSE <<>>))
        ELSE Len(hist) > MaxDepth => Behaviour(History)
=============================================================================
