------------------------------- MODULE MCRat --------------------------------
(***************************************************************************)
(* The overrides against their definitions.                                *)
(*                                                                         *)
(* TLC evaluates the operators of Rat.tla and some of Spline.tla with Java *)
(* code.  RatPlain.tla and SplinePlain.tla are copies of these modules     *)
(* under other names (made by tools/core.py), to which the overrides do    *)
(* not apply: there a rational is a pair of integers.  Both are evaluated  *)
(* here on the same small numbers and have to agree.                       *)
(***************************************************************************)
EXTENDS Spline

CONSTANTS MaxNum, MaxDen, Degrees, KnotVals, MaxInterior

PR == INSTANCE RatPlain
PS == INSTANCE SplinePlain

(* A plain rational, as the overridden one.                                *)
V(q) == Q(q[1], q[2])
Vs(s) == [i \in 1..Len(s) |-> V(s[i])]
Vss(s) == [i \in 1..Len(s) |-> Vs(s[i])]

Nums == {<<n, d>> \in ((-MaxNum)..MaxNum) \X (1..MaxDen) : PR!Q(n, d) = <<n, d>>}

(* Knot vectors over eighths.                                              *)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>}
            ELSE Lists(n - 1) \cup {Append(l, x) : l \in Lists(n - 1), x \in KnotVals}
Up(l) == \A i \in 1..(Len(l) - 1) : l[i] <= l[i + 1]
Count(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
Interior(p) == {l \in Lists(MaxInterior) : Up(l) /\ \A x \in KnotVals : Count(l, x) <= IMax(p, 1)}
KnotsOf(p, l) == Rep(<<0, 1>>, p + 1) \o [i \in 1..Len(l) |-> PR!Q(l[i], 8)] \o Rep(<<1, 1>>, p + 1)
Params == {PR!Q(n, 8) : n \in 0..8}

VARIABLES what, arg
Init == \/ what = "num" /\ arg \in Nums \X Nums
        \/ what = "basis" /\ arg \in UNION {{<<p, KnotsOf(p, l), x>> : l \in Interior(p), x \in Params} : p \in Degrees}
        \/ what = "div" /\ arg \in [1..3 -> {-1, 0, 2}] \X [1..3 -> {1, 2}]
Next == UNCHANGED <<what, arg>>
Spec == Init /\ [][Next]_<<what, arg>>

Arithmetic ==
    what = "num" =>
      LET a == arg[1]  b == arg[2]  x == V(a)  y == V(b)
          s == <<a, b, PR!RNeg(a), <<1, 3>>>>
          t == <<b, a, <<1, 2>>, b>>
      IN  /\ REq(RAdd(x, y), V(PR!RAdd(a, b)))
          /\ REq(RSub(x, y), V(PR!RSub(a, b)))
          /\ REq(RMul(x, y), V(PR!RMul(a, b)))
          /\ b[1] # 0 => REq(RDiv(x, y), V(PR!RDiv(a, b)))
          /\ REq(RNeg(x), V(PR!RNeg(a)))
          /\ REq(RAbs(x), V(PR!RAbs(a)))
          /\ RLe(x, y) = PR!RLe(a, b)
          /\ RLt(x, y) = PR!RLt(a, b)
          /\ REq(x, y) = PR!REq(a, b)
          /\ (x = y) = (a = b)
          /\ REq(RMax(x, y), V(PR!RMax(a, b)))
          /\ REq(RMin(x, y), V(PR!RMin(a, b)))
          /\ REq(RSum(Vs(s)), V(PR!RSum(s)))
          /\ REq(RDot(Vs(s), Vs(t)), V(PR!RDot(s, t)))
          /\ RComb(Vs(s), <<Vs(t), Vs(s), Vs(t), Vs(s)>>) = Vs(PR!RComb(s, <<t, s, t, s>>))
          /\ REq(RMaxAbs(Vs(s)), V(PR!RMaxAbs(s)))
          /\ \A e \in {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>} :
               /\ RNear(x, y, V(e)) = PR!RNear(a, b, e)
               /\ RNearAll(Vs(s), Vs(t), V(e)) = PR!RNearAll(s, t, e)
          /\ a[1] >= 0 => RLe(x, RUp(x)) /\ RLe(RUp(x), RMul(x, Q(1000001, 1000000)))
          /\ REq(RParse(RShow(x)), x)
          /\ RIsNum(RShow(x))
          /\ RParse(RShow(x)) = x

(* Reading numbers.                                                        *)
Reading ==
    /\ REq(RParse("0x1.8p+1"), Q(3, 1)) /\ REq(RParse("-0x1p-3"), Q(-1, 8)) /\ REq(RParse("0x0p+0"), Zero)
    /\ REq(RParse("2.5e-1"), Q(1, 4)) /\ REq(RParse("-12"), Q(-12, 1)) /\ REq(RParse("6/4"), Q(3, 2))
    /\ RIsNum("1e300") /\ ~RIsNum("nan") /\ ~RIsNum("inf") /\ ~RIsNum("") /\ ~RIsNum("x")
    /\ RIsNums(<<"1", "2">>) /\ ~RIsNums(<<"1", "nan">>)
    /\ RParses(<<"1", "0x1p+1">>) = <<One, Two>>

BasisFunctions ==
    what = "basis" =>
      LET p == arg[1]  U == arg[2]  x == arg[3]
          k == PS!Span(U, x)
      IN  /\ Span(Vs(U), V(x)) = k
          /\ BasisAt(p, Vs(U), k, V(x)) = Vs(PS!BasisAt(p, U, k, x))
          /\ \A m \in 0..3 : AbsSeriesAt(p, Vs(U), k, V(x), m) = Vss(PS!AbsSeriesAt(p, U, k, x, m))
          /\ \A m \in 0..3 : BasisSeriesAt(p, Vs(U), k, V(x), m) = Vss(PS!BasisSeriesAt(p, U, k, x, m))

(* Series with coefficients from arg: a quotient of polynomials.           *)
Ser(f, g) == [i \in 1..3 |-> <<<<f[i], 1>>, <<f[4 - i], 1>>, <<1, i>>, <<g[i], 1>>>>]
Ser2(f, g) == [i \in 1..3 |-> [j \in 1..2 |-> <<<<f[i] + j, 1>>, <<f[j], 1>>, <<j, i>>, <<g[i] + j - 1, 1>>>>]]
VSer2(s) == [i \in 1..Len(s) |-> Vss(s[i])]
Quotients ==
    what = "div" =>
      LET s == Ser(arg[1], arg[2])  s2 == Ser2(arg[1], arg[2])
      IN  /\ DivSeries(Vss(s), 2, <<>>) = Vss(PS!DivSeries(s, 2, <<>>))
          /\ DivSeries2(VSer2(s2), 2, 1, <<>>) = Vss(PS!DivSeries2(s2, 2, 1, <<>>))
=============================================================================
