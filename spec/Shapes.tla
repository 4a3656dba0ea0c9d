------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* What each operation on curves and surfaces may return.                  *)
(*                                                                         *)
(* Every operator ...OK(operand, arguments, result) is a relation between  *)
(* exact values; the only freedom left to the implementation is rounding:  *)
(* a result may differ from the exact value by a small multiple of the     *)
(* error scale of the computation (the size of what is added up), which is *)
(* computed here from the data.                                            *)
(***************************************************************************)
EXTENDS Spline

(* Sizes. *)
MaxXYZ(Ps) == RMaxAbs(TLCEval([i \in 1..Len(Ps) |-> RMaxAbs(XYZ(Ps[i]))]))
MaxW(Ps)   == RMaxAbs(TLCEval([i \in 1..Len(Ps) |-> Ps[i][4]]))
RECURSIVE MinWFrom(_, _)
MinWFrom(Ps, i) == IF i = Len(Ps) THEN Ps[i][4] ELSE RMin(Ps[i][4], MinWFrom(Ps, i + 1))
MinW(Ps)   == MinWFrom(Ps, 1)

TolEval  == E(11)      \* point evaluation, relative to the largest local coordinate
TolBasis == E(12)      \* basis functions (values between 0 and 1)
TolDer   == E(11)      \* derivatives, relative to the error scale below
TolConv  == E(10)      \* knot insertion (convex combinations only)
TolHistory == E(6)     \* several operations, one after the other
TolAlg   == E(8)       \* elevation, removal (divisions by knot differences)
TolCoord == E(12)      \* matrix times point, equidistant points
TolKnot  == E(14)      \* 1 - knot, i / n

---------------------------------------------------------------------------
(* Basis functions.                                                        *)

BasisOKAt(p, U, k, x, res) ==
    Len(res) = p + 1 /\ RNearAll(res, BasisAt(p, U, k, x), TolBasis)

(* The size of what is added up in computing the d-th derivatives (abs is  *)
(* from AbsSeriesAt).                                                      *)
DerSize(abs, d) == RMul(RFact(d), RUp(RMaxAbs(TLCEval([r \in 1..Len(abs) |-> abs[r][d + 1]]))))

(* res[d+1] is the sequence of the d-th derivatives, d = 0..m.             *)
BasisDersOKAt(p, U, k, x, m, res) ==
    /\ Len(res) = m + 1
    /\ LET ser == BasisSeriesAt(p, U, k, x, m)
           abs == AbsSeriesAt(p, U, k, x, m)
       IN  \A d \in 0..m :
             RNearAll(res[d + 1], BasisDer(ser, d), RAdd(RMul(TolDer, DerSize(abs, d)), TolBasis))
BasisDerOKAt(p, U, k, x, d, res) ==
    LET ser == BasisSeriesAt(p, U, k, x, d)
        abs == AbsSeriesAt(p, U, k, x, d)
    IN  RNearAll(res, BasisDer(ser, d), RAdd(RMul(TolDer, DerSize(abs, d)), TolBasis))

---------------------------------------------------------------------------
(* Evaluation and derivatives.                                             *)

CurveEvalOK(c, x, res) ==
    LET k == Span(c.U, x)
        L == Local(c.P, c.p, k)
        H == RComb(BasisAt(c.p, c.U, k, x), HomoSeq(L))
    IN  RNearAll(res, XYZ(Cart(H)), RMul(TolEval, MaxXYZ(L)))

(* How exactly the coefficients of a quotient series A/W can be computed.  *)
(* S and Sw: what is added up in computing the coefficients of A and W, so *)
(* that these are known up to a <= TolDer S and w <= TolDer Sw; Rq: the    *)
(* size of the coefficients of q = A/W; V: those of 1/W.  The computed     *)
(* quotient is off by (a - w q) / (W + w), and 1 / (W + w) is bounded by   *)
(* V / (1 - TolDer Sw V) (products of series).  All series are flat,       *)
(* (a, b) at index a * (mv + 1) + b + 1; curves have mu = 0.               *)
ProductAt(f, g, a, b, mv) ==
    RDot(TLCEval([n \in 1..((a + 1) * (b + 1)) |-> f[((n - 1) \div (b + 1)) * (mv + 1) + ((n - 1) % (b + 1)) + 1]]),
         TLCEval([n \in 1..((a + 1) * (b + 1)) |-> g[(a - ((n - 1) \div (b + 1))) * (mv + 1) + (b - ((n - 1) % (b + 1))) + 1]]))
Product(f, g, mu, mv) ==
    TLCEval([n \in 1..((mu + 1) * (mv + 1)) |->
              RUp(ProductAt(f, g, (n - 1) \div (mv + 1), (n - 1) % (mv + 1), mv))])
(* f / (1 - t), all coefficients positive.                                 *)
RECURSIVE Geometric(_, _, _, _, _)
Geometric(f, t, mu, mv, acc) ==
    LET n == Len(acc)
        a == n \div (mv + 1)
        b == n % (mv + 1)
    IN  IF a > mu THEN acc
        ELSE Geometric(f, t, mu, mv, TLCEval(Append(acc,
               RUp(RDiv(RAdd(f[n + 1],
                        RSum(TLCEval([i \in 1..((a + 1) * (b + 1)) |->
                          LET x == (i - 1) \div (b + 1)  y == (i - 1) % (b + 1)
                          IN  IF x = 0 /\ y = 0 THEN Zero
                              ELSE RMul(t[x * (mv + 1) + y + 1], acc[(a - x) * (mv + 1) + (b - y) + 1])]))),
                    RSub(One, t[1]))))))
QuotientSizes(S, Sw, Rq, V, mu, mv) ==
    LET t   == LET sv == Product(Sw, V, mu, mv) IN TLCEval([n \in 1..Len(sv) |-> RMul(TolDer, sv[n])])
        VV  == Geometric(V, t, mu, mv, <<>>)
        sq  == Product(Sw, Rq, mu, mv)
        loc == TLCEval([n \in 1..Len(sq) |-> RUp(RAdd(S[n], sq[n]))])
    IN  Product(loc, VV, mu, mv)
UpAbs(x) == RUp(RAbs(x))
PointSizes(q) == TLCEval([n \in 1..Len(q) |-> RUp(RMaxAbs(XYZ(q[n])))])
(* <<largest coordinate, weight>> of homogeneous points.                   *)
SizePair(H) == <<RUp(RMaxAbs(XYZ(H))), RUp(H[4])>>

CurveDerSizes(c, k, x, H, q, m) ==
    LET abs == AbsSeriesAt(c.p, c.U, k, x, m)
        L   == HomoSeq(Local(c.P, c.p, k))
        B   == TLCEval([r \in 1..Len(L) |-> SizePair(L[r])])
        S   == TLCEval([d \in 1..(m + 1) |-> RComb(TLCEval([r \in 1..Len(L) |-> RUp(abs[r][d])]), B)])
        V   == DivSeries(TLCEval([d \in 1..(m + 1) |-> <<IF d = 1 THEN One ELSE Zero, Zero, Zero, H[d][4]>>]), m, <<>>)
    IN  QuotientSizes(TLCEval([d \in 1..(m + 1) |-> S[d][1]]), TLCEval([d \in 1..(m + 1) |-> S[d][2]]),
                      PointSizes(q), TLCEval([d \in 1..(m + 1) |-> UpAbs(V[d][1])]), 0, m)

CurveDersOK(c, x, m, res) ==
    LET k  == Span(c.U, x)
        H  == CurveSeriesAtH(c, k, x, m)
        q  == DivSeries(H, m, <<>>)
        sc == CurveDerSizes(c, k, x, H, q, m)
    IN  /\ Len(res) = m + 1
        /\ \A d \in 0..m :
             RNearAll(res[d + 1], [a \in 1..3 |-> RMul(RFact(d), q[d + 1][a])], RMul(RMul(TolDer, RFact(d)), sc[d + 1]))
CurveDerOK(c, x, d, res) ==
    LET k  == Span(c.U, x)
        H  == CurveSeriesAtH(c, k, x, d)
        q  == DivSeries(H, d, <<>>)
        sc == CurveDerSizes(c, k, x, H, q, d)
    IN  RNearAll(res, [a \in 1..3 |-> RMul(RFact(d), q[d + 1][a])], RMul(RMul(TolDer, RFact(d)), sc[d + 1]))

SurfLocal(s, ku, kv) ==
    TLCEval([n \in 1..((s.pu + 1) * (s.pv + 1)) |->
        Net(s, (ku - s.pu) + ((n - 1) % (s.pu + 1)), (kv - s.pv) + ((n - 1) \div (s.pu + 1)))])

SurfEvalOK(s, x, y, res) ==
    LET L == SurfLocal(s, Span(s.U, x), Span(s.V, y))
    IN  RNearAll(res, SurfAt(s, x, y), RMul(TolEval, MaxXYZ(L)))

SurfDerSizes(s, x, y, mu, mv, H, q) ==
    LET ku == Span(s.U, x)  kv == Span(s.V, y)
        au == AbsSeriesAt(s.pu, s.U, ku, x, mu)
        av == AbsSeriesAt(s.pv, s.V, kv, y, mv)
        B  == TLCEval([r \in 1..(s.pv + 1) |->
                TLCEval([i \in 1..(s.pu + 1) |-> SizePair(Homo(Net(s, ku - s.pu + i - 1, kv - s.pv + r - 1)))])])
        R  == TLCEval([a \in 1..(mu + 1) |->
                TLCEval([r \in 1..(s.pv + 1) |-> RComb(TLCEval([i \in 1..(s.pu + 1) |-> RUp(au[i][a])]), B[r])])])
        S  == TLCEval([n \in 1..((mu + 1) * (mv + 1)) |->
                RComb(TLCEval([r \in 1..(s.pv + 1) |-> RUp(av[r][((n - 1) % (mv + 1)) + 1])]), R[((n - 1) \div (mv + 1)) + 1])])
        V  == DivSeries2(TLCEval([a \in 1..(mu + 1) |->
                TLCEval([b \in 1..(mv + 1) |-> <<IF a + b = 2 THEN One ELSE Zero, Zero, Zero, H[a][b][4]>>])]), mu, mv, <<>>)
    IN  QuotientSizes(TLCEval([n \in 1..Len(S) |-> RUp(S[n][1])]), TLCEval([n \in 1..Len(S) |-> RUp(S[n][2])]),
                      PointSizes(q), TLCEval([n \in 1..Len(S) |-> UpAbs(V[n][1])]), mu, mv)

SurfDerCheck(s, x, y, mu, mv, Chk(_, _, _)) ==
    \* Chk(n, value, tolerance) for every n = a * (mv + 1) + b + 1
    LET H  == SurfSeriesH(s, x, y, mu, mv)
        q  == DivSeries2(H, mu, mv, <<>>)
        sc == SurfDerSizes(s, x, y, mu, mv, H, q)
    IN  \A n \in 1..((mu + 1) * (mv + 1)) :
          LET a == (n - 1) \div (mv + 1)  b == (n - 1) % (mv + 1)
              f == RMul(RFact(a), RFact(b))
          IN  Chk(n, [e \in 1..3 |-> RMul(f, q[n][e])], RMul(RMul(TolDer, f), sc[n]))

(* The table is returned as a grid of (mu+1) x (mv+1) vectors; tab[n] with  *)
(* n = a * (mv + 1) + b + 1 is the entry (a, b).                           *)
SurfDersOK(s, x, y, mu, mv, tab) ==
    /\ Len(tab) = (mu + 1) * (mv + 1)
    /\ LET Chk(n, v, tol) == RNearAll(tab[n], v, tol)
       IN  SurfDerCheck(s, x, y, mu, mv, Chk)
SurfDerOK(s, x, y, a, b, res) ==
    LET Chk(n, v, tol) == n # (a + 1) * (b + 1) \/ RNearAll(res, v, tol)
    IN  SurfDerCheck(s, x, y, a, b, Chk)

---------------------------------------------------------------------------
(* Equality of shapes.                                                     *)
(*                                                                         *)
(* Two rows of homogeneous control points HA over (p, U) and HB over       *)
(* (q, T), where T has the same break points as U or more, describe the    *)
(* same rational function iff for some constant lam > 0 the homogeneous    *)
(* functions satisfy B = lam A.  lam is fixed by the caller.  On a span    *)
(* where knots and points are identical there is nothing to check.         *)
(* The tolerance is relative to what A adds up locally when convex is TRUE *)
(* (insertion: every new point is a convex combination of local points),   *)
(* to the size of the whole row otherwise.                                 *)

SameWindow(p, U, HA, k, q, T, HB, l) ==
    /\ p = q
    /\ SubSeq(U, k - p + 2, k + p + 1) = SubSeq(T, l - p + 2, l + p + 1)
    /\ Local(HA, p, k) = Local(HB, p, l)

(* One place: sample x with functionals fa, fb; sizes of A.                *)
SameAt(fa, p, HA, fb, q, HB, lam, tol, size, wsize) ==
    LET a == ApplyF(fa, p, HA)
        b == ApplyF(fb, q, HB)
        w == IF wsize = <<>> THEN a[4] ELSE wsize[1]
    IN  /\ RNear(b[4], RMul(lam, a[4]), RMul(lam, RMul(tol, w)))
        /\ \A e \in 1..3 : RNear(b[e], RMul(lam, a[e]), RMul(lam, RMul(tol, RMul(w, size))))

SizeH(HA) == MaxXYZ(CartSeq(HA))

SameRow(p, U, HA, q, T, HB, lam, tol, convex) ==
    LET b == Breaks(T)
        deg == IMax(p, q)
        gsize == SizeH(HA)
        gw == <<MaxW(HA)>>
    IN  \A n \in 1..(Len(b) - 1) :
          LET xs == SamplesIn(b[n], b[n + 1], deg)
              k == Span(U, xs[1])
              l == Span(T, xs[1])
              size == IF convex THEN SizeH(Local(HA, p, k)) ELSE gsize
          IN  \/ REq(lam, One) /\ SameWindow(p, U, HA, k, q, T, HB, l)
              \/ \A j \in 1..Len(xs) :
                   SameAt(<<k, BasisAt(p, U, k, xs[j])>>, p, HA,
                          <<l, BasisAt(q, T, l, xs[j])>>, q, HB,
                          lam, tol, size, IF convex THEN <<>> ELSE gw)

Lam(PA, PB) == RDiv(PB[1][4], PA[1][4])
PositiveW(Ps) == \A i \in 1..Len(Ps) : Len(Ps[i]) = 4 /\ RLt(Zero, Ps[i][4])

(* Curves with the same parametrisation and shape.                         *)
SameCurve(c, r, tol, convex) ==
    SameRow(c.p, c.U, HomoSeq(c.P), r.p, r.U, HomoSeq(r.P), Lam(c.P, r.P), tol, convex)

(* Surfaces that differ only in the u direction's degree and knots: since   *)
(* the functions of v are the same and independent, they are equal iff     *)
(* their rows are.  The functionals are computed once for all rows.        *)
SameRowsU(s, r, tol, convex) ==
    LET lam == Lam(s.P, r.P)
        b == Breaks(r.U)
        deg == IMax(s.pu, r.pu)
        A == TLCEval([j \in 1..s.nv |-> HomoSeq(NetRow(s, j - 1))])
        B == TLCEval([j \in 1..s.nv |-> HomoSeq(NetRow(r, j - 1))])
    IN  \A n \in 1..(Len(b) - 1) :
          LET xs == SamplesIn(b[n], b[n + 1], deg)
              k == Span(s.U, xs[1])
              l == Span(r.U, xs[1])
              rows == {j \in 1..s.nv : ~(REq(lam, One) /\ SameWindow(s.pu, s.U, A[j], k, r.pu, r.U, B[j], l))}
          IN  \A i \in 1..Len(xs) :
                rows # {} =>
                LET fa == <<k, BasisAt(s.pu, s.U, k, xs[i])>>
                    fb == <<l, BasisAt(r.pu, r.U, l, xs[i])>>
                IN  \A j \in rows :
                      SameAt(fa, s.pu, A[j], fb, r.pu, B[j], lam, tol,
                             IF convex THEN SizeH(Local(A[j], s.pu, k)) ELSE SizeH(A[j]),
                             IF convex THEN <<>> ELSE <<MaxW(A[j])>>)

(* Any two surfaces over [0,1]^2: compare on the product of samples.       *)
SameSurface(s, r, tol) ==
    LET xs == SamplePoints(r.U, IMax(s.pu, r.pu))
        ys == SamplePoints(r.V, IMax(s.pv, r.pv))
        lam == Lam(s.P, r.P)
        size == MaxXYZ(s.P)
    IN  \A i \in 1..Len(xs) : \A j \in 1..Len(ys) :
          LET a == SurfH(s, xs[i], ys[j])
              b == SurfH(r, xs[i], ys[j])
              w == RMul(lam, MaxW(s.P))
          IN  /\ RNear(b[4], RMul(lam, a[4]), RMul(tol, w))
              /\ \A e \in 1..3 : RNear(b[e], RMul(lam, a[e]), RMul(tol, RMul(w, size)))

---------------------------------------------------------------------------
(* Knot insertion.                                                         *)

CurveInsertOK(c, xs, r) ==
    /\ r.p = c.p
    /\ r.U = InsertAll(c.U, xs)
    /\ Len(r.P) = Len(c.P) + Len(xs)
    /\ PositiveW(r.P)
    /\ SameCurve(c, r, TolConv, TRUE)

ShapeUOK(s, r) == \* everything about v is untouched
    /\ r.pv = s.pv /\ r.V = s.V /\ r.nv = s.nv
    /\ Len(r.P) = r.nu * r.nv
    /\ PositiveW(r.P)

SurfInsertUOK(s, xs, r) ==
    /\ ShapeUOK(s, r)
    /\ r.pu = s.pu
    /\ r.U = InsertAll(s.U, xs)
    /\ r.nu = s.nu + Len(xs)
    /\ SameRowsU(s, r, TolConv, TRUE)
WellSized(r) == Len(r.P) = r.nu * r.nv
SurfInsertVOK(s, xs, r) == WellSized(r) /\ SurfInsertUOK(SwapUV(s), xs, SwapUV(r))

---------------------------------------------------------------------------
(* Degree elevation.                                                       *)

CurveElevateOK(c, t, r) ==
    /\ r.p = c.p + t
    /\ r.U = ElevateKnots(c.U, t)
    /\ Len(r.U) = Len(r.P) + r.p + 1
    /\ PositiveW(r.P)
    /\ RNear(Lam(c.P, r.P), One, TolAlg)
    /\ SameCurve(c, r, TolAlg, FALSE)

SurfElevateUOK(s, t, r) ==
    /\ ShapeUOK(s, r)
    /\ r.pu = s.pu + t
    /\ r.U = ElevateKnots(s.U, t)
    /\ Len(r.U) = r.nu + r.pu + 1
    /\ SameRowsU(s, r, TolAlg, FALSE)
SurfElevateVOK(s, t, r) == WellSized(r) /\ SurfElevateUOK(SwapUV(s), t, SwapUV(r))

---------------------------------------------------------------------------
(* Knot removal.                                                           *)
(*                                                                         *)
(* How many occurrences of u certainly have to go: those whose jumps, as   *)
(* displacements over the range of knots the removal touches, are far      *)
(* below the tolerance (which the library measures in homogeneous space,   *)
(* scaled by the smallest weight and the largest distance).                *)

RemovalSlack == Q(1, 100)
NormTol(HA, tol) ==
    LET d == RMul(RInt(2), RMaxAbs(TLCEval([i \in 1..Len(HA) |-> RMaxAbs(XYZ(Cart(HA[i])))])))
    IN  RDiv(RMul(tol, MinW(HA)), RAdd(One, d))

(* Undoing an insertion extrapolates, which magnifies rounding when the    *)
(* knots around u are very unevenly spaced: a bound on the factor from the *)
(* left and from the right after t removals, each starting from an error   *)
(* of the size e.                                                          *)
RECURSIVE GainFrom(_, _, _, _, _, _, _, _, _)
GainFrom(p, U, u, t, i, j, e, g, h) ==
    IF j - i <= t THEN RMax(g, h)
    ELSE LET a == RDiv(RSub(u, K(U, i)), RSub(K(U, i + p + 1 + t), K(U, i)))
             b == RDiv(RSub(K(U, j + p + 1), u), RSub(K(U, j + p + 1), K(U, j - t)))
         IN  GainFrom(p, U, u, t, i + 1, j - 1, e,
                      RUp(RMax(g, RDiv(RAdd(e, RMul(RSub(One, a), g)), a))),
                      RUp(RMax(h, RDiv(RAdd(e, RMul(RSub(One, b), h)), b))))

(* How many removals keep the magnified rounding well below the limit.     *)
RECURSIVE SoundRemovals(_, _, _, _, _, _, _, _)
SoundRemovals(p, U, u, r, s, t, e, limit) ==
    IF t = s THEN s
    ELSE LET g == TLCEval(GainFrom(p, U, u, t, r - p - t, r - s + t, e, e, e))
         IN  IF RLe(limit, g) THEN t ELSE SoundRemovals(p, U, u, r, s, t + 1, g, limit)

MustRemove(p, U, HA, u, tol) ==
    LET k == LeftSpan(U, u)
        l == RightSpan(U, u)
        g == RSub(K(U, l + p), K(U, k + 1 - p))     \* knots within p of u
        n == TLCEval(NormTol(HA, tol))
        thr == TLCEval([d \in 1..p |-> RDiv(RMul(RemovalSlack, n), RPow(g, d))])
        size == RMul(E(14), RMaxAbs(TLCEval([i \in 1..Len(HA) |-> RMaxAbs(HA[i])])))
    IN  IMin(LeadingSmall(RowJumps(p, U, HA, u), p - Mult(U, u), thr, 1),
             SoundRemovals(p, U, u, l, Mult(U, u), 0, RUp(size), n))

(* The shape is kept: everywhere within the tolerance per removed knot.    *)
CloseRow(p, U, HA, T, HB, dist) ==
    LET b == Breaks(U)
    IN  \A n \in 1..(Len(b) - 1) :
          LET xs == SamplesIn(b[n], b[n + 1], 2 * p)
              k == Span(U, xs[1])
              l == Span(T, xs[1])
          IN  \/ SameWindow(p, U, HA, k, p, T, HB, l)
              \/ \A j \in 1..Len(xs) :
                   RNearAll(XYZ(Cart(ApplyF(<<k, BasisAt(p, U, k, xs[j])>>, p, HA))),
                            XYZ(Cart(ApplyF(<<l, BasisAt(p, T, l, xs[j])>>, p, HB))), dist)
(* The rows of a surface are blended by their weights: these are kept too, *)
(* within the same tolerance in homogeneous space.                         *)
CloseWeights(p, U, HA, T, HB, t, tol) ==
    LET b == Breaks(U)
        dist == RAdd(RMul(RInt(4 * t), NormTol(HA, tol)),
                     RMul(TolAlg, RMaxAbs(TLCEval([i \in 1..Len(HA) |-> HA[i][4]]))))
    IN  \A n \in 1..(Len(b) - 1) :
          LET xs == SamplesIn(b[n], b[n + 1], p)
              k == Span(U, xs[1])
              l == Span(T, xs[1])
          IN  \/ SameWindow(p, U, HA, k, p, T, HB, l)
              \/ \A j \in 1..Len(xs) :
                   RNear(ApplyF(<<k, BasisAt(p, U, k, xs[j])>>, p, HA)[4],
                         ApplyF(<<l, BasisAt(p, T, l, xs[j])>>, p, HB)[4], dist)
RemoveDist(PA, t, tol) ==
    RAdd(RMul(RInt(2 * t), tol), RMul(TolAlg, MaxXYZ(PA)))

SamePoints(PA, PB) ==
    Len(PA) = Len(PB) /\ \A i \in 1..Len(PA) :
        RNearAll(PB[i], PA[i], RMul(TolCoord, RMaxAbs(PA[i])))

CurveRemoveOK(c, u, n, tol, t, r) ==
    LET s == Mult(c.U, u)
    IN  /\ 0 <= t /\ t <= n /\ t <= s
        /\ r.p = c.p
        /\ r.U = (IF t = 0 THEN c.U ELSE RemoveKnots(c.U, u, t))
        /\ Len(r.P) = Len(c.P) - t
        /\ PositiveW(r.P)
        /\ IF t = 0 THEN SamePoints(c.P, r.P)
           ELSE CloseRow(c.p, c.U, HomoSeq(c.P), r.U, HomoSeq(r.P), RemoveDist(c.P, t, tol))
        /\ s > 0 => t >= IMin(n, MustRemove(c.p, c.U, HomoSeq(c.P), u, tol))

(* A surface row by row; all rows have to agree on the count.              *)
SurfRemoveUOK(s, u, n, tol, t, r) ==
    LET m == Mult(s.U, u)
    IN  /\ 0 <= t /\ t <= n /\ t <= m
        /\ ShapeUOK(s, r)
        /\ r.pu = s.pu
        /\ r.U = (IF t = 0 THEN s.U ELSE RemoveKnots(s.U, u, t))
        /\ r.nu = s.nu - t
        /\ IF t = 0 THEN SamePoints(s.P, r.P)
           ELSE \A j \in 0..(s.nv - 1) :
                  /\ CloseRow(s.pu, s.U, HomoSeq(NetRow(s, j)), r.U, HomoSeq(NetRow(r, j)),
                              RemoveDist(s.P, t, tol))
                  /\ CloseWeights(s.pu, s.U, HomoSeq(NetRow(s, j)), r.U, HomoSeq(NetRow(r, j)), t, tol)
        /\ m > 0 => \A k \in 1..n :
              (\A j \in 0..(s.nv - 1) : MustRemove(s.pu, s.U, HomoSeq(NetRow(s, j)), u, tol) >= k) => t >= k
SurfRemoveVOK(s, u, n, tol, t, r) == WellSized(r) /\ SurfRemoveUOK(SwapUV(s), u, n, tol, t, SwapUV(r))

---------------------------------------------------------------------------
(* Linear maps.  M is a sequence of 9 numbers, row by row.                 *)

TransformPointOK(M, P, R) ==
    /\ REq(R[4], P[4])
    /\ \A e \in 1..3 :
         LET row == <<M[3 * e - 2], M[3 * e - 1], M[3 * e]>>
             size == RSum([j \in 1..3 |-> RAbs(RMul(row[j], P[j]))])
         IN  RNear(R[e], RDot(row, XYZ(P)), RMul(TolCoord, size))
TransformPointsOK(M, Ps, Rs) == Len(Ps) = Len(Rs) /\ \A i \in 1..Len(Ps) : TransformPointOK(M, Ps[i], Rs[i])
CurveTransformOK(c, M, r) == r.p = c.p /\ r.U = c.U /\ TransformPointsOK(M, c.P, r.P)
SurfTransformOK(s, M, r) ==
    /\ r.pu = s.pu /\ r.pv = s.pv /\ r.U = s.U /\ r.V = s.V /\ r.nu = s.nu /\ r.nv = s.nv
    /\ TransformPointsOK(M, s.P, r.P)

---------------------------------------------------------------------------
(* Rationality: two different weights.                                     *)
Rational(Ps) == \E i \in 1..Len(Ps) : ~REq(Ps[i][4], Ps[1][4])

---------------------------------------------------------------------------
(* Bezier pieces.                                                          *)

BezierKnots(p) == [i \in 1..(2 * p + 2) |-> IF i <= p + 1 THEN Zero ELSE One]
NonEmptySpans(U) == Len(Breaks(U)) - 1

BezierOK(c, segs) ==
    LET b == Breaks(c.U)
    IN  /\ Len(segs) = Len(b) - 1
        /\ \A n \in 1..Len(segs) :
             LET g == segs[n]
                 H == HomoSeq(g.P)
                 ss == SamplesIn(Zero, One, c.p)
                 k == Span(c.U, b[n])
                 L == Local(c.P, c.p, k)
                 size == MaxXYZ(L)
                 lam == RDiv(g.P[1][4], ApplyF(<<k, BasisAt(c.p, c.U, k, b[n])>>, c.p, HomoSeq(c.P))[4])
             IN  /\ g.p = c.p /\ g.U = BezierKnots(c.p)
                 /\ Len(g.P) = c.p + 1 /\ PositiveW(g.P)
                 /\ \A j \in 1..Len(ss) :
                      LET x == RAdd(b[n], RMul(ss[j], RSub(b[n + 1], b[n])))
                      IN  SameAt(<<k, BasisAt(c.p, c.U, k, x)>>, c.p, HomoSeq(c.P),
                                 <<c.p, BasisAt(c.p, g.U, c.p, ss[j])>>, c.p, H,
                                 lam, TolConv, size, <<>>)

(* The exact pieces: blossoms at the two break points.                     *)
CurveBezier(c) ==
    LET b == Breaks(c.U)
        H == HomoSeq(c.P)
    IN  TLCEval([n \in 1..(Len(b) - 1) |->
          [p |-> c.p, U |-> BezierKnots(c.p),
           P |-> CartSeq([i \in 1..(c.p + 1) |->
                   Blossom(c.p, c.U, H, Span(c.U, b[n]),
                           [j \in 1..c.p |-> IF j <= c.p + 1 - i THEN b[n] ELSE b[n + 1]])])]])

---------------------------------------------------------------------------
(* Bounding boxes of curves.                                               *)
(*                                                                         *)
(* "The coordinate a of the curve never exceeds B" is a statement about    *)
(* the polynomials g = x_a - B w: g <= 0 on every piece.  It is decided by *)
(* subdivision of the Bernstein coefficients of g.                         *)

RECURSIVE Casteljau(_, _, _)
Casteljau(g, L, R) ==        \* returns <<left coefficients, right coefficients>>
    LET L2 == Append(L, g[1])
        R2 == <<g[Len(g)]>> \o R
    IN  IF Len(g) = 1 THEN <<L2, R2>>
        ELSE Casteljau(TLCEval([i \in 1..(Len(g) - 1) |-> RMul(Half, RAdd(g[i], g[i + 1]))]), L2, R2)

AllLe0(g) == \A i \in 1..Len(g) : RLe(g[i], Zero)

RECURSIVE NeverPositive(_, _)
NeverPositive(g, depth) ==
    \/ AllLe0(g)
    \/ /\ RLe(g[1], Zero) /\ RLe(g[Len(g)], Zero)
       /\ \/ depth = 0                    \* undecided: no counterexample found
          \/ LET h == Casteljau(g, <<>>, <<>>)
             IN  NeverPositive(h[1], depth - 1) /\ NeverPositive(h[2], depth - 1)

RECURSIVE SomewhereNonNeg(_, _)
SomewhereNonNeg(g, depth) ==
    \/ RLe(Zero, g[1]) \/ RLe(Zero, g[Len(g)])
    \/ /\ \E i \in 1..Len(g) : RLe(Zero, g[i])
       /\ depth > 0
       /\ LET h == Casteljau(g, <<>>, <<>>)
          IN  SomewhereNonNeg(h[1], depth - 1) \/ SomewhereNonNeg(h[2], depth - 1)

BoxSlack == E(6)

BoxOK(c, eps, mn, mx) ==
    LET segs == CurveBezier(c)
        size == MaxXYZ(c.P)
        tight == RMul(E(9), size)
        out == RAdd(eps, RAdd(BoxSlack, tight))
        \* coefficients of  sign * (x_a - B w)
        G(n, a, B, sign) == TLCEval([i \in 1..(c.p + 1) |->
            LET P == segs[n].P[i] IN RMul(sign, RMul(P[4], RSub(P[a], B)))])
        Neg == RNeg(One)
    IN  \A a \in 1..3 :
          /\ RLe(mn[a], mx[a])
          /\ \A n \in 1..Len(segs) :
               /\ NeverPositive(G(n, a, RAdd(mx[a], out), One), 10)
               /\ NeverPositive(G(n, a, RSub(mn[a], out), Neg), 10)
          /\ \E n \in 1..Len(segs) : SomewhereNonNeg(G(n, a, RSub(mx[a], tight), One), 24)
          /\ \E n \in 1..Len(segs) : SomewhereNonNeg(G(n, a, RAdd(mn[a], tight), Neg), 24)

---------------------------------------------------------------------------
(* Builders.                                                               *)

UniformKnots(p, n) ==     \* n knots in all
    LET m == n - 2 * (p + 1)
    IN  TLCEval([i \in 1..n |-> IF i <= p + 1 THEN Zero ELSE IF i > n - p - 1 THEN One
                                ELSE Q(i - p - 1, m + 1)])
UniformOK(p, n, U) ==
    /\ Len(U) = n
    /\ \A i \in 1..n : IF i <= p + 1 \/ i > n - p - 1 THEN REq(U[i], UniformKnots(p, n)[i])
                       ELSE RNear(U[i], Q(i - p - 1, n - 2 * p - 1), TolKnot)

Lerp(a, b, i, n) == [e \in 1..3 |-> RAdd(a[e], RMul(Q(i, n), RSub(b[e], a[e])))]
SegmentOK(p, n, A, B, r) ==
    /\ r.p = p
    /\ UniformOK(p, n + p + 1, r.U)
    /\ Len(r.P) = n
    /\ LET size == RMaxAbs(A \o B)
       IN  \A i \in 0..(n - 1) :
             /\ REq(r.P[i + 1][4], One)
             /\ RNearAll(XYZ(r.P[i + 1]), Lerp(A, B, i, n - 1), RMul(TolCoord, size))
RectOK(pu, pv, nu, nv, LB, RB, LT, r) ==
    /\ r.pu = pu /\ r.pv = pv /\ r.nu = nu /\ r.nv = nv
    /\ UniformOK(pu, nu + pu + 1, r.U) /\ UniformOK(pv, nv + pv + 1, r.V)
    /\ Len(r.P) = nu * nv
    /\ LET size == RMaxAbs(LB \o RB \o LT)
       IN  \A i \in 0..(nu - 1) : \A j \in 0..(nv - 1) :
             LET a == Lerp(LB, RB, i, nu - 1)
                 P == Net(r, i, j)
             IN  /\ REq(P[4], One)
                 /\ RNearAll(XYZ(P), [e \in 1..3 |-> RAdd(a[e], RMul(Q(j, nv - 1), RSub(LT[e], LB[e])))],
                             RMul(TolCoord, RMul(RInt(4), size)))

---------------------------------------------------------------------------
(* Aligning the parameter domain.                                          *)

VSub(a, b) == [e \in 1..3 |-> RSub(a[e], b[e])]
VDot(a, b) == RDot(a, b)
Edge(s, i0, j0, i1, j1) == TLCEval(VSub(XYZ(Net(s, i1, j1)), XYZ(Net(s, i0, j0))))
EdgeU(s)  == Edge(s, 0, 0, s.nu - 1, 0)
EdgeV(s)  == Edge(s, 0, 0, 0, s.nv - 1)
EdgeU2(s) == Edge(s, 0, s.nv - 1, s.nu - 1, s.nv - 1)
EdgeV2(s) == Edge(s, s.nu - 1, 0, s.nu - 1, s.nv - 1)

(* The axis (1, 2, 3) of the unique largest coordinate change, or 0.       *)
Dominant(v) ==
    IF \E a \in 1..3 : \A b \in (1..3) \ {a} : RLt(RAbs(v[b]), RAbs(v[a]))
    THEN CHOOSE a \in 1..3 : \A b \in (1..3) \ {a} : RLt(RAbs(v[b]), RAbs(v[a]))
    ELSE 0

LongEnough(v) == RLt(RMul(Two, E(6)), RMaxAbs(v))
SameWay(v, w) ==      \* the same dominant axis, in the same direction
    /\ Dominant(v) # 0 /\ Dominant(v) = Dominant(w)
    /\ RLt(Zero, v[Dominant(v)]) = RLt(Zero, w[Dominant(w)])
Alignable(s, au, av) ==
    /\ LongEnough(EdgeU(s)) /\ LongEnough(EdgeV(s)) /\ LongEnough(EdgeU2(s)) /\ LongEnough(EdgeV2(s))
    /\ SameWay(EdgeU(s), EdgeU2(s)) /\ SameWay(EdgeV(s), EdgeV2(s))
    /\ Dominant(EdgeU(s)) # Dominant(EdgeV(s))
    /\ {Dominant(EdgeU(s)), Dominant(EdgeV(s))} = {au, av}

Symmetries(s) == <<s, ReverseU(s), ReverseV(s), ReverseU(ReverseV(s)),
                   SwapUV(s), SwapUV(ReverseU(s)), SwapUV(ReverseV(s)), SwapUV(ReverseU(ReverseV(s)))>>

SameUpToKnotRounding(a, r) ==
    /\ r.pu = a.pu /\ r.pv = a.pv /\ r.nu = a.nu /\ r.nv = a.nv
    /\ RNearAll(r.U, a.U, TolKnot) /\ RNearAll(r.V, a.V, TolKnot)
    /\ r.P = a.P

AlignExact(s, au, av) ==
    LET sw == Dominant(EdgeU(s)) = av
        a == IF sw THEN SwapUV(s) ELSE s
        b == IF RLt(EdgeU(a)[au], Zero) THEN ReverseU(a) ELSE a
    IN  IF RLt(EdgeV(a)[av], Zero) THEN ReverseV(b) ELSE b

(* What "aligned" means for the result.                                    *)
Aligned(r, au, av) ==
    /\ Dominant(EdgeU(r)) = au /\ RLt(Zero, EdgeU(r)[au])
    /\ Dominant(EdgeV(r)) = av /\ RLt(Zero, EdgeV(r)[av])

(* One of the eight symmetries; the aligned one if there is one.           *)
AlignOK(s, au, av, r) ==
    LET sy == Symmetries(s)
    IN  /\ \E n \in 1..8 : SameUpToKnotRounding(sy[n], r)
        /\ Alignable(s, au, av) => Aligned(r, au, av)

---------------------------------------------------------------------------
(* Parameter searches.                                                     *)

InUnit(x) == RLe(Zero, x) /\ RLe(x, One)
Dist2(a, b) == LET d == TLCEval(VSub(a, b)) IN VDot(d, d)
SearchTol(size) == RMul(E(5), size)
Norm2(a) == VDot(a, a)

(* Legs of polygons: pairwise at most 80 degrees apart (cos 80 = 0.1737)   *)
(* and of lengths within a factor of 100.                                  *)
AcuteLegs(L) == \A a \in L : \A b \in L :
    /\ RLt(Zero, VDot(a, b))
    /\ RLe(RMul(Q(3017, 100000), RMul(Norm2(a), Norm2(b))), RMul(VDot(a, b), VDot(a, b)))
    /\ RLe(Norm2(a), RMul(Q(10000, 1), Norm2(b)))
LegsOf(Ps) == {VSub(XYZ(Ps[i + 1]), XYZ(Ps[i])) : i \in 1..(Len(Ps) - 1)}
(* Distinct knots at least 1/100 apart.                                    *)
WideKnots(U) == \A i \in 1..(Len(U) - 1) : RLt(U[i], U[i + 1]) => RLe(Q(1, 100), RSub(U[i + 1], U[i]))
NearOrigin(Ps, size) == RLe(MaxXYZ(Ps), RMul(Q(20, 1), size))
EqualWeights(Ps) == ~Rational(Ps)
SizeOf(Ps) == RMaxAbs(TLCEval([i \in 1..Len(Ps) |-> RMaxAbs(VSub(XYZ(Ps[i]), XYZ(Ps[1])))]))

=============================================================================
