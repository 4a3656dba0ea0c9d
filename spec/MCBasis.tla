------------------------------ MODULE MCBasis -------------------------------
(***************************************************************************)
(* Basis functions over all small clamped knot vectors.  The recursive     *)
(* definition (Spline.tla) is checked here against what characterises the  *)
(* basis, and every form of the library's basis evaluation is called for   *)
(* every parameter of interest and every order.                            *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Degrees, MaxInterior, KnotVals, MaxExtra   \* orders go up to degree + MaxExtra

VARIABLES deg
mcvars == <<heap, disk, memo, deg>>

Init == \E p \in Degrees : \E s \in InteriorSeqs(KnotVals, MaxInterior, IMax(1, p)) :
          /\ deg = p
          /\ heap = ("k" :> [k |-> "kv", v |-> MakeKnotSeq(p, s)]) /\ disk = <<>> /\ memo = <<>>
Next == UNCHANGED mcvars
Spec == Init /\ [][Next]_mcvars
View == <<heap, deg>>

U == heap["k"].v

---------------------------------------------------------------------------
(* Non-negative, a partition of unity, and 1 in an end point.              *)
Partition ==
    LET UU == U  pp == ParamsOf(UU) IN \A i \in 1..Len(pp) :
      LET b == BasisAt(deg, UU, Span(UU, pp[i]), pp[i])
      IN  /\ \A j \in 1..Len(b) : RLe(Zero, b[j])
          /\ REq(RSum(b), One)
          /\ REq(pp[i], Zero) => REq(b[1], One)
          /\ REq(pp[i], One) => REq(b[deg + 1], One)
          /\ BasisOKAt(deg, UU, Span(UU, pp[i]), pp[i], b)

(* Reproduction of the parameter: sum N_i(x) g_i = x, g_i the Greville     *)
(* abscissae.                                                              *)
Reproduction == deg >= 1 =>
    LET UU == U  pp == ParamsOf(UU) IN \A i \in 1..Len(pp) :
      LET k == Span(UU, pp[i])
          b == BasisAt(deg, UU, k, pp[i])
      IN  REq(RSum([j \in 1..(deg + 1) |-> RMul(b[j], Greville(deg, UU, k - deg + j - 1))]), pp[i])

(* The Taylor series at x is the polynomial of the span; derivatives of    *)
(* the sum vanish; orders above the degree vanish.                         *)
Derivatives ==
    LET UU == U  pp == ParamsOf(UU) IN \A i \in 1..Len(pp) :
      LET x == pp[i]
          k == Span(UU, x)
          m == deg + MaxExtra
          ser == BasisSeriesAt(deg, UU, k, x, m)
          y == RMul(Half, RAdd(K(UU, k), K(UU, k + 1)))
          h == RSub(y, x)
          at == BasisAt(deg, UU, k, y)
          tab == TLCEval([d \in 1..(m + 1) |-> BasisDer(ser, d - 1)])
      IN  /\ \A j \in 1..(deg + 1) :
               REq(at[j], RSum([d \in 1..(m + 1) |-> RMul(RPow(h, d - 1), ser[j][d])]))
          /\ \A d \in 1..m : REq(RSum([j \in 1..(deg + 1) |-> ser[j][d + 1]]), Zero)
          /\ \A d \in (deg + 1)..m : \A j \in 1..(deg + 1) : REq(ser[j][d + 1], Zero)
          /\ BasisDersOKAt(deg, UU, k, x, m, tab)

(* Continuity: where the multiplicity is at most the degree, the left and  *)
(* the right polynomials of every function agree in the knot.              *)
Continuity ==
    LET UU == U  b == Breaks(UU) IN \A i \in 2..(Len(b) - 1) :
      Mult(UU, b[i]) <= deg =>
        LET l == LeftSpan(UU, b[i])  r == RightSpan(UU, b[i])
            L == BasisAt(deg, UU, l, b[i])
            R == BasisAt(deg, UU, r, b[i])
            Fn(B, k, n) == IF n < k - deg \/ n > k THEN Zero ELSE B[n - (k - deg) + 1]
        IN  \A n \in (l - deg)..r : REq(Fn(L, l, n), Fn(R, r, n))

---------------------------------------------------------------------------
Emit ==
    LET UU == U
        pp == ParamsOf(UU)
        p == Str(deg)
        One1(i) ==
          LET x == RShow(pp[i])
              k == Str(Span(UU, pp[i]))
              m == Str(i % (deg + MaxExtra + 1))
              m2 == Str((i + 2) % (deg + MaxExtra + 1))
          IN  <<"beval k " \o p \o " " \o x, "bevalat k " \o p \o " " \o k \o " " \o x,
                "bders k " \o p \o " " \o x \o " " \o Str(deg + MaxExtra),
                "bders k " \o p \o " " \o x \o " " \o m,
                "bdersat k " \o p \o " " \o k \o " " \o x \o " " \o m2,
                "bder k " \o p \o " " \o x \o " " \o m, "bderat k " \o p \o " " \o k \o " " \o x \o " " \o m2>>
        RECURSIVE All(_)
        All(i) == IF i > Len(pp) THEN <<>> ELSE One1(i) \o All(i + 1)
    IN  Behaviour(<<KnotsS("k", UU)>> \o All(1))
=============================================================================
