------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Writing the driver's commands.  A behaviour of a model is printed as    *)
(* one line "VQ-B|command;command;..." and replayed against the library.   *)
(***************************************************************************)
EXTENDS Nurbs, SequencesExt

Str(n) == ToString(n)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN ""
                        ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

NumsS(xs) == Join([i \in 1..Len(xs) |-> RShow(xs[i])], " ")
ListS(xs) == IF xs = <<>> THEN "0" ELSE Str(Len(xs)) \o " " \o NumsS(xs)
PointsS(Ps) == Join([i \in 1..Len(Ps) |-> NumsS(Ps[i])], " ")
CurveS(r, c) == "curve " \o r \o " " \o Str(c.p) \o " " \o ListS(c.U) \o " " \o Str(Len(c.P)) \o " " \o PointsS(c.P)
SurfS(r, s) == "surf " \o r \o " " \o Str(s.pu) \o " " \o Str(s.pv) \o " " \o ListS(s.U) \o " " \o ListS(s.V)
               \o " " \o Str(s.nu) \o " " \o Str(s.nv) \o " " \o PointsS(s.P)
KnotsS(r, U) == "kv " \o r \o " " \o ListS(U)

Behaviour(cmds) == PrintT("VQ-B|" \o Join(cmds, ";"))

(* A set as a sequence (in TLC's order).                                   *)
AsSeq(S) == SetToSeq(S)
=============================================================================
