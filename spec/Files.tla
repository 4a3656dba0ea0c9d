------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The file format.                                                        *)
(*                                                                         *)
(* A text file is a sequence of lines; a line is a sequence of tokens:     *)
(* blanks (any run of spaces, tabs, carriage returns; "~n" stands for n    *)
(* spaces), "*", ":", "," and words.  Loading is the state machine below, one step per line.  Its     *)
(* result is one of                                                        *)
(*    [st |-> "obj", o |-> object]   the file must load as this object     *)
(*    [st |-> "err"]                 the file must be refused              *)
(*    [st |-> "any"]                 the format does not say               *)
(***************************************************************************)
EXTENDS Shapes

IsBlank(t) == t \in {" ", "  ", "   ", "\t", "\r", " \r", " \t", "\t ", "~300", "~5000", "~20000"}

RECURSIVE TrimL(_)
TrimL(ts) == IF ts # <<>> /\ IsBlank(Head(ts)) THEN TrimL(Tail(ts)) ELSE ts
RECURSIVE TrimR(_)
TrimR(ts) == IF ts # <<>> /\ IsBlank(ts[Len(ts)]) THEN TrimR(SubSeq(ts, 1, Len(ts) - 1)) ELSE ts
Trim(ts) == TrimR(TrimL(ts))

Words(ts) == SelectSeq(ts, LAMBDA t : ~IsBlank(t))

(* Split at commas; empty pieces are dropped.                              *)
SplitC(ts) ==
    LET cs == <<0>> \o SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : ts[i] = ",") \o <<Len(ts) + 1>>
    IN  SelectSeq(TLCEval([k \in 1..(Len(cs) - 1) |-> Trim(SubSeq(ts, cs[k] + 1, cs[k + 1] - 1))]), LAMBDA q : q # <<>>)
RECURSIVE SplitLines(_)
SplitLines(ls) == IF ls = <<>> THEN <<>> ELSE SplitC(Head(ls)) \o SplitLines(Tail(ls))

---------------------------------------------------------------------------
(* The header line.                                                        *)
HeaderMode(ts, kind) ==     \* "TXT", "BIN", "err"
    LET w == Words(ts)
    IN  IF Len(w) >= 3 /\ w[1] = "LIBNURBS" /\ w[2] \in {"TXT", "BIN"} /\ w[3] = kind
        THEN w[2] ELSE "err"

---------------------------------------------------------------------------
(* Sections.                                                               *)

Err == [st |-> "err"]
AnyResult == [st |-> "any"]
Val(x) == [st |-> "obj", o |-> x]

IntWords == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5)
         @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9) @@ ("10" :> 10)
         @@ ("-1" :> -1) @@ ("-2" :> -2)

ParseInt(lines) ==
    IF Len(lines) # 1 THEN Err
    ELSE LET w == Words(lines[1])
         IN  IF w[1] \in DOMAIN IntWords
             THEN IF Len(w) = 1 THEN Val(IntWords[w[1]]) ELSE AnyResult
             ELSE IF RIsNum(w[1]) THEN AnyResult ELSE Err

(* A sequence of numbers, each piece exactly n words.                      *)
PieceState(pc, n) ==
    LET w == Words(pc)
        m == IMin(n, Len(w))
    IN  IF \E i \in 1..m : ~RIsNum(w[i]) THEN "err"
        ELSE IF Len(w) < n THEN "err"
        ELSE IF Len(w) > n THEN "any" ELSE "obj"
ParsePieces(pcs, n) ==
    IF \E i \in 1..Len(pcs) : PieceState(pcs[i], n) = "err" THEN Err
    ELSE IF \E i \in 1..Len(pcs) : PieceState(pcs[i], n) = "any" THEN AnyResult
    ELSE Val(TLCEval([i \in 1..Len(pcs) |-> RParses(Words(pcs[i]))]))

ParseKnots(lines) ==
    LET r == ParsePieces(SplitLines(lines), 1)
    IN  IF r.st = "obj" THEN Val([i \in 1..Len(r.o) |-> r.o[i][1]]) ELSE r

ParseNet(lines) ==
    IF lines = <<>> THEN Err
    ELSE LET w == Words(lines[1])
             pts == Tail(lines)
         IN  IF Len(w) < 2 \/ ~(w[1] \in DOMAIN IntWords) \/ ~(w[2] \in DOMAIN IntWords)
             THEN IF Len(w) >= 2 /\ RIsInt(w[1]) /\ RIsInt(w[2])
                     /\ ~REq(RMul(RParse(w[1]), RParse(w[2])), RInt(Len(pts))) THEN Err
                  ELSE IF Len(w) >= 2 /\ RIsNum(w[1]) /\ RIsNum(w[2]) THEN AnyResult ELSE Err
             ELSE LET nu == IntWords[w[1]]  nv == IntWords[w[2]]
                  IN  IF nu <= 0 \/ nv <= 0 \/ Len(pts) # nu * nv THEN Err
                      ELSE IF Len(w) > 2 THEN AnyResult
                      ELSE LET r == ParsePieces(pts, 4)
                           IN  IF r.st = "obj" THEN Val([nu |-> nu, nv |-> nv, P |-> r.o]) ELSE r

SectionKeys(kind) == IF kind = "CURVE" THEN {"Degree", "Knots", "ControlPoints"}
                     ELSE {"DegreeU", "DegreeV", "KnotsU", "KnotsV", "ControlPoints"}
ParseSection(kind, key, lines) ==
    IF key \notin SectionKeys(kind) THEN Err
    ELSE IF key \in {"Degree", "DegreeU", "DegreeV"} THEN ParseInt(lines)
    ELSE IF key \in {"Knots", "KnotsU", "KnotsV"} THEN ParseKnots(lines)
    ELSE IF kind = "CURVE" THEN ParsePieces(SplitLines(lines), 4)
    ELSE ParseNet(lines)

---------------------------------------------------------------------------
(* The line machine.  State: the current section, its lines, what has been *)
(* read, and a status "run", "err" or "any" (a section that occurs twice). *)

LoadStart == [key |-> "", lines |-> <<>>, got |-> <<>>, st |-> "run"]

CloseSection(kind, S) ==
    IF S.key = "" \/ S.st = "err" THEN S
    ELSE LET r == ParseSection(kind, S.key, S.lines)
         IN  IF r.st = "err" THEN [S EXCEPT !.st = "err"]
             ELSE IF r.st = "any" \/ S.key \in DOMAIN S.got THEN [S EXCEPT !.st = "any"]
             ELSE [S EXCEPT !.got = (S.key :> r.o) @@ S.got]

LoadLine(kind, S, ts) ==
    LET l == Trim(ts)
    IN  IF S.st = "err" \/ l = <<>> THEN S
        ELSE IF l[1] = "*" /\ \E i \in 1..Len(l) : l[i] = ":"
        THEN LET colon == CHOOSE i \in 1..Len(l) : l[i] = ":" /\ \A j \in 1..(i - 1) : l[j] # ":"
                 name == Trim(SubSeq(l, 2, colon - 1))
                 rest == Trim(SubSeq(l, colon + 1, Len(l)))
                 C == CloseSection(kind, S)
             IN  IF Len(name) # 1 THEN [C EXCEPT !.st = IF C.st = "err" THEN "err" ELSE "any"]
                 ELSE [C EXCEPT !.key = name[1], !.lines = IF rest = <<>> THEN <<>> ELSE <<rest>>]
        ELSE IF S.key = "" THEN [S EXCEPT !.st = "err"]
        ELSE [S EXCEPT !.lines = Append(S.lines, l)]

LoadEnd(kind, S0) ==
    LET S == CloseSection(kind, S0)
    IN  IF S.st = "err" THEN Err
        ELSE IF S.st = "any" \/ DOMAIN S.got # SectionKeys(kind) THEN AnyResult
        ELSE IF kind = "CURVE"
        THEN Val([p |-> S.got["Degree"], U |-> S.got["Knots"], P |-> S.got["ControlPoints"]])
        ELSE LET n == S.got["ControlPoints"]
             IN  Val([pu |-> S.got["DegreeU"], pv |-> S.got["DegreeV"],
                      U |-> S.got["KnotsU"], V |-> S.got["KnotsV"],
                      nu |-> n.nu, nv |-> n.nv, P |-> n.P])

RECURSIVE LoadLines(_, _, _)
LoadLines(kind, S, ls) == IF ls = <<>> THEN LoadEnd(kind, S)
                          ELSE LoadLines(kind, TLCEval(LoadLine(kind, S, Head(ls))), Tail(ls))

(* lines[1] is the header.  A text file.                                   *)
LoadText(kind, lines) ==
    IF lines = <<>> \/ HeaderMode(lines[1], kind) = "err" THEN Err
    ELSE IF HeaderMode(lines[1], kind) = "BIN" THEN AnyResult
    ELSE LoadLines(kind, LoadStart, Tail(lines))

---------------------------------------------------------------------------
(* A binary file: the header line, then 4-byte integers and 8-byte numbers *)
(*   curve:    degree, knot count, knots, point count, points              *)
(*   surface:  degree u, degree v, knot count u, knots u, knot count v,    *)
(*             knots v, points in u, points in v, points                   *)
(* An object is written completely or the file is refused: BinaryFields is *)
(* the list of field sizes, and a file that ends before the last field is  *)
(* complete must not load.                                                 *)

RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
BinaryFields(kind, o) ==
    IF kind = "CURVE"
    THEN <<4, 4>> \o Rep(8, Len(o.U)) \o <<4>> \o Rep(32, Len(o.P))
    ELSE <<4, 4>> \o <<4>> \o Rep(8, Len(o.U)) \o <<4>> \o Rep(8, Len(o.V)) \o <<4, 4>> \o Rep(32, Len(o.P))
BinaryLen(kind, o) == LET f == BinaryFields(kind, o) IN SumInt(f, Len(f))
HeaderLen(kind) == IF kind = "CURVE" THEN 19 ELSE 21   \* "LIBNURBS BIN CURVE\n"

(* The result of loading the first n bytes of the file (size bytes) of     *)
(* object o.                                                               *)
LoadPrefix(o, size, n) == IF n >= size THEN Val(o) ELSE Err

---------------------------------------------------------------------------
(* Numbers read from text: a decimal constant denotes the nearest double,  *)
(* so the loaded number is the denoted one up to half a unit in the last   *)
(* place (2^-53 of its size).                                              *)
ReadNear(x, y) == REq(x, y) \/ RLe(RAbs(RSub(x, y)), RMul(RAbs(y), RDiv(One, RMul(RInt(1073741824), RInt(4194304)))))
ReadNearAll(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : ReadNear(a[i], b[i])
ReadPoints(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : ReadNearAll(a[i], b[i])
LoadedNear(kind, o, r) ==
    IF kind = "CURVE"
    THEN r.p = o.p /\ ReadNearAll(r.U, o.U) /\ ReadPoints(r.P, o.P)
    ELSE /\ r.pu = o.pu /\ r.pv = o.pv /\ r.nu = o.nu /\ r.nv = o.nv
         /\ ReadNearAll(r.U, o.U) /\ ReadNearAll(r.V, o.V) /\ ReadPoints(r.P, o.P)

(* out = [ok, o] or [ok |-> FALSE].                                        *)
LoadTextOK(kind, lines, out) ==
    LET x == LoadText(kind, lines)
    IN  CASE x.st = "err" -> ~out.ok
          [] x.st = "any" -> TRUE
          [] x.st = "obj" -> out.ok /\ LoadedNear(kind, x.o, out.o)
=============================================================================
