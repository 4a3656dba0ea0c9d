------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* What B-splines and NURBS are: knot spans, Cox-de Boor basis functions   *)
(* and their derivatives, rational curves and surfaces as functions of     *)
(* their parameters, blossoms, and the exact results of knot insertion,    *)
(* knot removal, degree elevation and subdivision.                         *)
(*                                                                         *)
(* Conventions.  A knot vector U is a sequence of rationals; like the      *)
(* textbooks and the code we count its entries from 0 and write K(U, i).   *)
(* A control point is <<x, y, z, w>>: Cartesian coordinates and a weight.  *)
(* A curve is [p, U, P]: degree, knots, control points (P[i+1] is P_i).    *)
(* A surface is [pu, pv, U, V, nu, nv, P]: the point (i, j) of its net is  *)
(* Net(s, i, j), stored u first, as the code stores it.                    *)
(***************************************************************************)
EXTENDS Rat, Sequences, Integers, FiniteSets, TLC

Zero == Q(0, 1)
One  == Q(1, 1)
Two  == Q(2, 1)
Half == Q(1, 2)
RInt(n) == Q(n, 1)

K(U, i) == U[i + 1]

IMax(a, b) == IF a < b THEN b ELSE a
IMin(a, b) == IF a < b THEN a ELSE b

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN One ELSE RMul(RInt(10), Pow10(n - 1))
E(n) == RDiv(One, Pow10(n))                     \* 10^-n

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE RMul(x, RPow(x, n - 1))

RECURSIVE RFact(_)
RFact(n) == IF n <= 1 THEN One ELSE RMul(RInt(n), RFact(n - 1))
RBinom(n, k) == IF k < 0 \/ k > n THEN Zero
                ELSE RDiv(RFact(n), RMul(RFact(k), RFact(n - k)))

RECURSIVE SumInt(_, _)
SumInt(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumInt(f, n - 1)

---------------------------------------------------------------------------
(* Knots.                                                                  *)

Sorted(U) == \A i \in 1..(Len(U) - 1) : RLe(U[i], U[i + 1])

Mult(U, x) == Cardinality({i \in 1..Len(U) : REq(U[i], x)})

(* The distinct values, in order, as a sequence.                           *)
Distinct(U) == SelectSeq([i \in 1..Len(U) |-> <<i, U[i]>>],
                         LAMBDA e : e[1] = 1 \/ ~REq(U[IMax(e[1] - 1, 1)], e[2]))
Breaks(U) == LET d == Distinct(U) IN TLCEval([i \in 1..Len(d) |-> d[i][2]])

(* The span of x: the last k with u_k <= x and u_k < u_(k+1).  At the      *)
(* right end this is the last non-empty span, elsewhere u_k <= x < u_(k+1).*)
Span(U, x) == CHOOSE k \in 0..(Len(U) - 2) :
                /\ RLe(K(U, k), x) /\ RLt(K(U, k), K(U, k + 1))
                /\ RLt(x, K(U, k + 1)) \/ REq(K(U, k + 1), K(U, Len(U) - 1))

(* A knot vector of degree p for n control points on [0, 1].               *)
Clamped(p, U) ==
    /\ Len(U) >= 2 * p + 2
    /\ Sorted(U)
    /\ \A i \in 0..p : REq(K(U, i), Zero) /\ REq(K(U, Len(U) - 1 - i), One)
    /\ \A i \in (p + 1)..(Len(U) - p - 2) : RLt(Zero, K(U, i)) /\ RLt(K(U, i), One)
    /\ \A i \in 1..(Len(U) - p - 2) : RLt(K(U, i), K(U, i + p))

---------------------------------------------------------------------------
(* Basis functions.                                                        *)
(*                                                                         *)
(* On the span k the p+1 functions N_(k-p)..N_k of degree p are polynomials.*)
(* BasisSeries gives each by its Taylor coefficients at x up to order m,   *)
(* built degree by degree with the Cox-de Boor recursion                   *)
(*   N_(i,q) = (X - u_i)/(u_(i+q) - u_i) N_(i,q-1)                         *)
(*           + (u_(i+q+1) - X)/(u_(i+q+1) - u_(i+1)) N_(i+1,q-1)           *)
(* with X = x + t.                                                         *)

LinSer(a, b, c, m) ==      \* (a + b t) * c(t), truncated after t^m
    [j \in 1..(m + 1) |-> IF j = 1 THEN RMul(a, c[1])
                          ELSE RAdd(RMul(a, c[j]), RMul(b, c[j - 1]))]
AddSer(c, d, m) == [j \in 1..(m + 1) |-> RAdd(c[j], d[j])]
ZeroSer(m) == [j \in 1..(m + 1) |-> Zero]

RECURSIVE BasisLevel(_, _, _, _, _, _, _)
BasisLevel(U, p, k, x, m, q, prev) ==
    \* prev = << N_(k-q,q), ..., N_(k,q) >>
    IF q = p THEN prev
    ELSE BasisLevel(U, p, k, x, m, q + 1,
        TLCEval([r \in 1..(q + 2) |->
            LET i == k - q - 2 + r
                den1 == RSub(K(U, i + q + 1), K(U, i))
                den2 == RSub(K(U, i + q + 2), K(U, i + 1))
                lft == IF r = 1 THEN ZeroSer(m)
                       ELSE LinSer(RDiv(RSub(x, K(U, i)), den1), RDiv(One, den1), prev[r - 1], m)
                rgt == IF r = q + 2 THEN ZeroSer(m)
                       ELSE LinSer(RDiv(RSub(K(U, i + q + 2), x), den2), RNeg(RDiv(One, den2)), prev[r], m)
            IN  IF r = 1 THEN rgt ELSE IF r = q + 2 THEN lft ELSE AddSer(lft, rgt, m)]))

BasisSeriesAt(p, U, k, x, m) ==
    BasisLevel(U, p, k, x, m, 0,
               TLCEval(<<[j \in 1..(m + 1) |-> IF j = 1 THEN One ELSE Zero]>>))

(* The same recursion with every term counted positive: how much is added  *)
(* up in computing the Taylor coefficients.  Bounds their rounding errors. *)
RECURSIVE AbsLevel(_, _, _, _, _, _, _)
AbsLevel(U, p, k, x, m, q, prev) ==
    IF q = p THEN prev
    ELSE AbsLevel(U, p, k, x, m, q + 1,
        TLCEval([r \in 1..(q + 2) |->
            LET i == k - q - 2 + r
                den1 == RSub(K(U, i + q + 1), K(U, i))
                den2 == RSub(K(U, i + q + 2), K(U, i + 1))
                lft == IF r = 1 THEN ZeroSer(m)
                       ELSE LinSer(RDiv(RSub(x, K(U, i)), den1), RDiv(One, den1), prev[r - 1], m)
                rgt == IF r = q + 2 THEN ZeroSer(m)
                       ELSE LinSer(RDiv(RSub(K(U, i + q + 2), x), den2), RDiv(One, den2), prev[r], m)
            IN  IF r = 1 THEN rgt ELSE IF r = q + 2 THEN lft ELSE AddSer(lft, rgt, m)]))
AbsSeriesAt(p, U, k, x, m) ==
    AbsLevel(U, p, k, x, m, 0, TLCEval(<<[j \in 1..(m + 1) |-> IF j = 1 THEN One ELSE Zero]>>))

(* The values N_(k-p)(x)..N_k(x).                                          *)
RECURSIVE BasisLevel0(_, _, _, _, _, _)
BasisLevel0(U, p, k, x, q, prev) ==
    IF q = p THEN prev
    ELSE BasisLevel0(U, p, k, x, q + 1,
        TLCEval([r \in 1..(q + 2) |->
            LET i == k - q - 2 + r
            IN  RAdd(IF r = 1 THEN Zero
                     ELSE RMul(RDiv(RSub(x, K(U, i)), RSub(K(U, i + q + 1), K(U, i))), prev[r - 1]),
                     IF r = q + 2 THEN Zero
                     ELSE RMul(RDiv(RSub(K(U, i + q + 2), x), RSub(K(U, i + q + 2), K(U, i + 1))), prev[r]))]))
BasisAt(p, U, k, x) == BasisLevel0(U, p, k, x, 0, <<One>>)
Basis(p, U, x) == BasisAt(p, U, Span(U, x), x)

(* The derivative of order d is d! times the Taylor coefficient.           *)
BasisDer(ser, d) == [r \in 1..Len(ser) |-> RMul(RFact(d), ser[r][d + 1])]

---------------------------------------------------------------------------
(* Homogeneous coordinates.                                                *)

Homo(P)   == <<RMul(P[1], P[4]), RMul(P[2], P[4]), RMul(P[3], P[4]), P[4]>>
Cart(H)   == <<RDiv(H[1], H[4]), RDiv(H[2], H[4]), RDiv(H[3], H[4]), H[4]>>
XYZ(P)    == <<P[1], P[2], P[3]>>
HomoSeq(Ps) == TLCEval([i \in 1..Len(Ps) |-> Homo(Ps[i])])
CartSeq(Hs) == TLCEval([i \in 1..Len(Hs) |-> Cart(Hs[i])])

---------------------------------------------------------------------------
(* Curves.                                                                 *)

IsPoint(P) == Len(P) = 4 /\ RLt(Zero, P[4])

WellFormedCurve(c) ==
    /\ c.p >= 1
    /\ Len(c.P) >= c.p + 1
    /\ Len(c.U) = Len(c.P) + c.p + 1
    /\ Clamped(c.p, c.U)
    /\ \A i \in 1..Len(c.P) : RLt(Zero, c.P[i][4])

Local(P, p, k) == SubSeq(P, k - p + 1, k + 1)      \* P_(k-p)..P_k

CurveH(c, x) == LET k == Span(c.U, x)
                IN  RComb(BasisAt(c.p, c.U, k, x), HomoSeq(Local(c.P, c.p, k)))
CurveAt(c, x) == XYZ(Cart(CurveH(c, x)))

(* Taylor coefficients at x, up to order m, of the homogeneous curve, and  *)
(* of the rational curve (series division).                                *)
CurveSeriesAtH(c, k, x, m) ==
    LET b == BasisSeriesAt(c.p, c.U, k, x, m)
        H == HomoSeq(Local(c.P, c.p, k))
    IN  TLCEval([d \in 1..(m + 1) |-> RComb([r \in 1..(c.p + 1) |-> b[r][d]], H)])
CurveSeriesH(c, x, m) == CurveSeriesAtH(c, Span(c.U, x), x, m)

(* Quotient by the weight series; the 4th components become 1, 0, 0, ...   *)
RECURSIVE DivSeries(_, _, _)
DivSeries(H, m, acc) ==      \* acc = quotient coefficients so far
    LET j == Len(acc)
        w == RDiv(One, H[1][4])
    IN  IF j > m THEN acc
        ELSE DivSeries(H, m, TLCEval(Append(acc,
                RComb(<<w>> \o [i \in 1..j |-> RNeg(RMul(w, H[i + 1][4]))],
                      <<H[j + 1]>> \o [i \in 1..j |-> acc[j - i + 1]]))))

CurveDers(c, x, m) ==
    LET q == DivSeries(CurveSeriesH(c, x, m), m, <<>>)
    IN  TLCEval([d \in 1..(m + 1) |-> [a \in 1..3 |-> RMul(RFact(d - 1), q[d][a])]])

---------------------------------------------------------------------------
(* Surfaces.                                                               *)

Net(s, i, j) == s.P[j * s.nu + i + 1]
NetRow(s, j) == SubSeq(s.P, j * s.nu + 1, (j + 1) * s.nu)          \* all u, fixed v
NetCol(s, i) == TLCEval([j \in 1..s.nv |-> Net(s, i, j - 1)])       \* all v, fixed u

WellFormedSurface(s) ==
    /\ s.pu >= 1 /\ s.pv >= 1
    /\ s.nu >= s.pu + 1 /\ s.nv >= s.pv + 1
    /\ Len(s.P) = s.nu * s.nv
    /\ Len(s.U) = s.nu + s.pu + 1 /\ Len(s.V) = s.nv + s.pv + 1
    /\ Clamped(s.pu, s.U) /\ Clamped(s.pv, s.V)
    /\ \A i \in 1..Len(s.P) : RLt(Zero, s.P[i][4])

SurfH(s, x, y) ==
    LET ku == Span(s.U, x)  kv == Span(s.V, y)
        bu == BasisAt(s.pu, s.U, ku, x)
        bv == BasisAt(s.pv, s.V, kv, y)
        rows == TLCEval([r \in 1..(s.pv + 1) |->
                    RComb(bu, HomoSeq([i \in 1..(s.pu + 1) |-> Net(s, ku - s.pu + i - 1, kv - s.pv + r - 1)]))])
    IN  RComb(bv, rows)
SurfAt(s, x, y) == XYZ(Cart(SurfH(s, x, y)))

(* Bivariate Taylor coefficients H[a+1][b+1] of t^a s^b.                   *)
SurfSeriesH(s, x, y, mu, mv) ==
    LET ku == Span(s.U, x)  kv == Span(s.V, y)
        bu == BasisSeriesAt(s.pu, s.U, ku, x, mu)
        bv == BasisSeriesAt(s.pv, s.V, kv, y, mv)
        H  == TLCEval([r \in 1..(s.pv + 1) |->
                HomoSeq([i \in 1..(s.pu + 1) |-> Net(s, ku - s.pu + i - 1, kv - s.pv + r - 1)])])
        R  == TLCEval([a \in 1..(mu + 1) |->
                TLCEval([r \in 1..(s.pv + 1) |-> RComb([i \in 1..(s.pu + 1) |-> bu[i][a]], H[r])])])
    IN  TLCEval([a \in 1..(mu + 1) |->
          TLCEval([b \in 1..(mv + 1) |-> RComb([r \in 1..(s.pv + 1) |-> bv[r][b]], R[a])])])

(* Quotient of bivariate series, in the order (0,0), (0,1), .., (1,0), ... *)
(* acc[a * (mv + 1) + b + 1] is the coefficient (a, b).                    *)
RECURSIVE DivSeries2(_, _, _, _)
DivSeries2(H, mu, mv, acc) ==
    LET n == Len(acc)
        a == n \div (mv + 1)
        b == n % (mv + 1)
        w == RDiv(One, H[1][1][4])
    IN  IF a > mu THEN acc
        ELSE DivSeries2(H, mu, mv, TLCEval(Append(acc,
               \* term 1 is (i, j) = (0, 0), for which H itself stands
               RComb([q \in 1..((a + 1) * (b + 1)) |->
                        IF q = 1 THEN w
                        ELSE RNeg(RMul(w, H[((q - 1) \div (b + 1)) + 1][((q - 1) % (b + 1)) + 1][4]))],
                     [q \in 1..((a + 1) * (b + 1)) |->
                        IF q = 1 THEN H[a + 1][b + 1]
                        ELSE acc[(a - ((q - 1) \div (b + 1))) * (mv + 1) + (b - ((q - 1) % (b + 1))) + 1]]))))

(* The derivative of orders (a, b) at index a * (mv + 1) + b + 1.          *)
SurfDers(s, x, y, mu, mv) ==
    LET q == DivSeries2(SurfSeriesH(s, x, y, mu, mv), mu, mv, <<>>)
    IN  TLCEval([n \in 1..((mu + 1) * (mv + 1)) |->
          LET a == (n - 1) \div (mv + 1)  b == (n - 1) % (mv + 1)
          IN  [e \in 1..3 |-> RMul(RMul(RFact(a), RFact(b)), q[n][e])]])

(* Exchanging the two parameters.                                          *)
SwapUV(s) == [pu |-> s.pv, pv |-> s.pu, U |-> s.V, V |-> s.U, nu |-> s.nv, nv |-> s.nu,
              P |-> TLCEval([n \in 1..(s.nu * s.nv) |->
                      LET i == (n - 1) % s.nv  j == (n - 1) \div s.nv IN Net(s, j, i)])]

ReverseSeq(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
ReverseKnots(U) == TLCEval([i \in 1..Len(U) |-> RSub(One, U[Len(U) + 1 - i])])
ReverseU(s) == [s EXCEPT !.U = ReverseKnots(s.U),
                         !.P = TLCEval([n \in 1..(s.nu * s.nv) |->
                                 LET i == (n - 1) % s.nu  j == (n - 1) \div s.nu
                                 IN  Net(s, s.nu - 1 - i, j)])]
ReverseV(s) == SwapUV(ReverseU(SwapUV(s)))

---------------------------------------------------------------------------
(* Blossoms: the symmetric multi-affine form of the polynomial piece on    *)
(* the non-empty span k, by de Boor's algorithm with one argument per      *)
(* level.  H are the homogeneous control points of the whole curve.        *)

RECURSIVE BlossomLevel(_, _, _, _, _, _)
BlossomLevel(U, p, k, args, r, d) ==
    \* d = << d_(k-p+r), ..., d_k >> of level r
    IF r = p THEN d[1]
    ELSE LET x == args[r + 1]
         IN  BlossomLevel(U, p, k, args, r + 1,
               TLCEval([j \in 1..(p - r) |->
                 LET i == k - p + r + j            \* d_i of level r + 1
                     den == RSub(K(U, i + p - r), K(U, i))
                     a == RDiv(RSub(x, K(U, i)), den)
                 IN  RComb(<<RSub(One, a), a>>, <<d[j], d[j + 1]>>)]))
Blossom(p, U, H, k, args) == BlossomLevel(U, p, k, args, 0, Local(H, p, k))

(* A span of U that carries the polynomial piece needed for the knots      *)
(* T_(i+1)..T_(i+p): the new control point Q_i is the blossom there, taken *)
(* on any non-empty span of U that meets the interior of [T_i, T_(i+p+1)]. *)
SpanFor(U, T, i, q) ==
    CHOOSE k \in 0..(Len(U) - 2) :
        /\ RLt(K(U, k), K(U, k + 1))
        /\ RLt(K(T, i), K(U, k + 1)) /\ RLt(K(U, k), K(T, i + q + 1))

---------------------------------------------------------------------------
(* Exact knot insertion.                                                   *)

InsertSorted(U, x) ==
    LET n == Cardinality({i \in 1..Len(U) : RLe(U[i], x)})
    IN  SubSeq(U, 1, n) \o <<x>> \o SubSeq(U, n + 1, Len(U))
RECURSIVE InsertAll(_, _)
InsertAll(U, xs) == IF xs = <<>> THEN U ELSE InsertAll(InsertSorted(U, Head(xs)), Tail(xs))

(* Boehm: one knot at a time.  (Blossom form: Q_i = f(T_(i+1)..T_(i+p)).)  *)
InsertRow1(p, U, H, x) ==
    LET k == Span(U, x)
    IN  TLCEval([n \in 1..(Len(H) + 1) |->
          LET i == n - 1
          IN  IF i <= k - p THEN H[i + 1]
              ELSE IF i > k THEN H[i]
              ELSE LET a == RDiv(RSub(x, K(U, i)), RSub(K(U, i + p), K(U, i)))
                   IN  RComb(<<RSub(One, a), a>>, <<H[i], H[i + 1]>>)])
RECURSIVE InsertRow(_, _, _, _)
InsertRow(p, U, H, xs) ==
    IF xs = <<>> THEN H
    ELSE InsertRow(p, InsertSorted(U, Head(xs)), InsertRow1(p, U, H, Head(xs)), Tail(xs))

InsertRowBlossom(p, U, H, xs) ==
    LET T == InsertAll(U, xs)
    IN  TLCEval([n \in 1..(Len(H) + Len(xs)) |->
          LET i == n - 1
          IN  IF i = 0 THEN H[1] ELSE IF i = Len(H) + Len(xs) - 1 THEN H[Len(H)]
              ELSE Blossom(p, U, H, SpanFor(U, T, i, p), SubSeq(T, i + 2, i + p + 1))])

CurveInsert(c, xs) ==
    [c EXCEPT !.U = InsertAll(c.U, xs),
              !.P = CartSeq(InsertRow(c.p, c.U, HomoSeq(c.P), xs))]

---------------------------------------------------------------------------
(* Exact degree elevation: Q_i is the mean, over all p-element sub-lists   *)
(* of T_(i+1)..T_(i+p+t), of the blossom.                                  *)

ElevateKnots(U, t) ==
    LET b == Breaks(U)
        RECURSIVE Build(_)
        Build(n) == IF n > Len(b) THEN <<>>
                    ELSE [i \in 1..(Mult(U, b[n]) + t) |-> b[n]] \o Build(n + 1)
    IN  TLCEval(Build(1))

ElevateRow(p, U, H, t) ==
    LET T == ElevateKnots(U, t)
        q == p + t
        subs == {S \in SUBSET (1..q) : Cardinality(S) = p}
        m == Len(T) - q - 1
        Pick(i, S) == LET RECURSIVE Go(_)
                          Go(j) == IF j > q THEN <<>>
                                   ELSE IF j \in S THEN <<K(T, i + j)>> \o Go(j + 1) ELSE Go(j + 1)
                      IN  Go(1)
        Mean(i, k) == LET RECURSIVE Acc(_, _)
                          Acc(SS, a) == IF SS = {} THEN a
                                        ELSE LET S == CHOOSE S \in SS : TRUE
                                             IN  Acc(SS \ {S}, RComb(<<One, One>>, <<a, Blossom(p, U, H, k, Pick(i, S))>>))
                      IN  RComb(<<RDiv(One, RBinom(q, p))>>, <<Acc(subs, [e \in 1..Len(H[1]) |-> Zero])>>)
    IN  TLCEval([n \in 1..m |-> LET i == n - 1
                                IN  IF i = 0 THEN H[1] ELSE IF i = m - 1 THEN H[Len(H)]
                                    ELSE Mean(i, SpanFor(U, T, i, q))])

CurveElevate(c, t) ==
    [p |-> c.p + t, U |-> ElevateKnots(c.U, t),
     P |-> CartSeq(ElevateRow(c.p, c.U, HomoSeq(c.P), t))]

---------------------------------------------------------------------------
(* Knot removal.  At a knot u of multiplicity s the pieces left and right  *)
(* of u agree up to order p - s by construction; r occurrences of u are    *)
(* redundant iff they agree up to order p - s + r.                         *)

LeftSpan(U, u)  == CHOOSE k \in 0..(Len(U) - 2) : RLt(K(U, k), K(U, k + 1)) /\ REq(K(U, k + 1), u)
RightSpan(U, u) == CHOOSE k \in 0..(Len(U) - 2) : RLt(K(U, k), K(U, k + 1)) /\ REq(K(U, k), u)

RowSeriesAt(p, U, H, k, x, m) ==
    LET b == BasisSeriesAt(p, U, k, x, m)
    IN  TLCEval([d \in 1..(m + 1) |-> RComb([r \in 1..(p + 1) |-> b[r][d]], Local(H, p, k))])

(* Jumps of the Taylor coefficients of orders p-s+1..p across the knot u.  *)
RowJumps(p, U, H, u) ==
    LET s == Mult(U, u)
        L == RowSeriesAt(p, U, H, LeftSpan(U, u), u, p)
        R == RowSeriesAt(p, U, H, RightSpan(U, u), u, p)
    IN  TLCEval([j \in 1..s |-> LET d == p - s + j
                                IN  [e \in 1..Len(H[1]) |-> RSub(R[d + 1][e], L[d + 1][e])]])

(* How many occurrences are redundant when a jump counts as zero if it is  *)
(* at most thr[d] in the order d.                                          *)
RECURSIVE LeadingSmall(_, _, _, _)
LeadingSmall(J, base, thr, j) ==
    IF j > Len(J) THEN Len(J)
    ELSE IF RLe(RMaxAbs(J[j]), thr[base + j]) THEN LeadingSmall(J, base, thr, j + 1)
    ELSE j - 1
Redundant(p, U, H, u) ==
    LeadingSmall(RowJumps(p, U, H, u), p - Mult(U, u), [d \in 1..p |-> Zero], 1)

(* Removing t occurrences of u (t redundant): Q_i = f(T_(i+1)..T_(i+p)).   *)
RemoveKnots(U, u, t) ==
    LET first == CHOOSE i \in 1..Len(U) : REq(U[i], u) /\ (i = 1 \/ ~REq(U[i - 1], u))
    IN  SubSeq(U, 1, first - 1) \o SubSeq(U, first + t, Len(U))
RemoveRow(p, U, H, u, t) ==
    LET T == RemoveKnots(U, u, t)
        m == Len(H) - t
    IN  TLCEval([n \in 1..m |->
          LET i == n - 1
          IN  IF i = 0 THEN H[1] ELSE IF i = m - 1 THEN H[Len(H)]
              ELSE Blossom(p, U, H, SpanFor(U, T, i, p), SubSeq(T, i + 2, i + p + 1))])
CurveRemove(c, u, t) ==
    [c EXCEPT !.U = RemoveKnots(c.U, u, t),
              !.P = CartSeq(RemoveRow(c.p, c.U, HomoSeq(c.P), u, t))]

---------------------------------------------------------------------------
(* Equality of piecewise polynomials.  On a span on which both are         *)
(* polynomials of degree at most q they are equal iff they agree at q + 1  *)
(* points.  The points are t_i + (2j+1)/2^e h with 2^e >= 2q+2.            *)

RECURSIVE Pow2AtLeast(_, _)
Pow2AtLeast(n, b) == IF b >= n THEN b ELSE Pow2AtLeast(n, 2 * b)
SamplesIn(a, b, q) ==
    LET e == Pow2AtLeast(2 * q + 2, 2)
    IN  [j \in 1..(q + 1) |-> RAdd(a, RMul(Q(2 * j - 1, e), RSub(b, a)))]
(* All sample points for two knot vectors with the same break points.      *)
SamplePoints(U, q) ==
    LET b == Breaks(U)
        RECURSIVE Go(_)
        Go(n) == IF n >= Len(b) THEN <<>> ELSE SamplesIn(b[n], b[n + 1], q) \o Go(n + 1)
    IN  TLCEval(Go(1))

(* Evaluation functionals: for every sample <<span, basis values>>.        *)
Functionals(p, U, xs) ==
    TLCEval([n \in 1..Len(xs) |-> LET k == Span(U, xs[n]) IN <<k, BasisAt(p, U, k, xs[n])>>])
ApplyF(f, p, H) == RComb(f[2], Local(H, p, f[1]))

=============================================================================
