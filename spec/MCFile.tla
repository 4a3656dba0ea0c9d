------------------------------- MODULE MCFile -------------------------------
(***************************************************************************)
(* Text files.  A state is a file, as lines of tokens.  Layout steps turn  *)
(* it into another file for the same object: sections change places, lines *)
(* are broken and joined, blanks and blank lines appear.  Damage steps     *)
(* turn it into a file that must be refused.  Every file reached is        *)
(* printed and loaded with the real code.                                  *)
(***************************************************************************)
EXTENDS Script

CONSTANTS Kinds,       \* subset of {"curve", "surf"}
          BlankNames,  \* blanks used in layout steps, subset of {"sp", "tab", "cr"}
          MaxDepth,    \* layout steps
          Damage       \* also damage every file reached

Blanks == {CASE b = "sp" -> " " [] b = "tab" -> "\t" [] b = "cr" -> "\r" : b \in BlankNames}

VARIABLES kind, lines, nl, depth, bad
mcvars == <<heap, disk, memo, kind, lines, nl, depth, bad>>

---------------------------------------------------------------------------
(* The objects and how the library itself writes them.                     *)
RECURSIVE Commas(_)
Commas(ws) == IF Len(ws) = 1 THEN ws ELSE <<ws[1], ",", " ">> \o Commas(Tail(ws))
RECURSIVE Spaced(_)
Spaced(ws) == IF Len(ws) = 1 THEN ws ELSE <<ws[1], " ">> \o Spaced(Tail(ws))

CK == <<"0", "0", "0", "0.5", "1", "1", "1">>
CP == <<<<"0", "0", "0", "1">>, <<"1.5", "2", "-3", "0.5">>, <<"1e2", "-4", "0.25", "2">>, <<"3", "1e-3", "0", "1">>>>
SU == <<"0", "0", "0.25", "1", "1">>
SV == <<"0", "0", "0", "1", "1", "1">>
SP == <<<<"0", "0", "0", "1">>, <<"1", "0", "0", "2">>, <<"2", "0", "1", "1">>,
        <<"0", "1.5", "0", "1">>, <<"1", "1", "1e1", "0.5">>, <<"2", "1", "-1", "1">>,
        <<"0", "2", "0", "3">>, <<"1", "2", "5e-1", "1">>, <<"2", "2", "2", "1">>>>

Sect(name) == <<"*", name, ":">>
CurveFile == <<<<"LIBNURBS", " ", "TXT", " ", "CURVE">>,
               Sect("Degree") \o <<" ", "2">>,
               Sect("Knots"), Commas(CK),
               Sect("ControlPoints")>> \o [i \in 1..4 |-> Append(Spaced(CP[i]), ",")]
SurfFile == <<<<"LIBNURBS", " ", "TXT", " ", "SURFACE">>,
              Sect("DegreeU") \o <<" ", "1">>, Sect("DegreeV") \o <<" ", "2">>,
              Sect("KnotsU"), Commas(SU), Sect("KnotsV"), Commas(SV),
              Sect("ControlPoints"), <<"3", " ", "3">>>> \o [i \in 1..9 |-> Spaced(SP[i])]
Original(k) == IF k = "curve" THEN CurveFile ELSE SurfFile
Object(k) == IF k = "curve" THEN [p |-> 2, U |-> RParses(CK), P |-> [i \in 1..4 |-> RParses(CP[i])]]
             ELSE [pu |-> 1, pv |-> 2, U |-> RParses(SU), V |-> RParses(SV), nu |-> 3, nv |-> 3,
                   P |-> [i \in 1..9 |-> RParses(SP[i])]]

---------------------------------------------------------------------------
(* Where things are.                                                       *)
IsHead(l) == Trim(l) # <<>> /\ Trim(l)[1] = "*"
Heads(L) == {i \in 2..Len(L) : IsHead(L[i])}
KeyOf(l) == Words(l)[2]
NameAt(l) == CHOOSE j \in 1..Len(l) : l[j] = KeyOf(l)
HeadOf(L, i) == CHOOSE h \in Heads(L) : h <= i /\ \A g \in Heads(L) : g <= i => g <= h
KeyAt(L, i) == KeyOf(L[HeadOf(L, i)])
CommaKeys(k) == {"Knots", "KnotsU", "KnotsV"} \cup (IF k = "curve" THEN {"ControlPoints"} ELSE {})
HasKey(L, i) == i > 1 /\ \E h \in Heads(L) : h <= i
IsValue(L, i) == i > 1 /\ ~IsHead(L[i]) /\ Trim(L[i]) # <<>> /\ HasKey(L, i)
InCommas(L, k, i) == HasKey(L, i) /\ KeyAt(L, i) \in CommaKeys(k)
Ends(L, h) == LET later == {g \in Heads(L) : g > h} IN IF later = {} THEN Len(L) ELSE (CHOOSE g \in later : \A f \in later : g <= f) - 1
LastTok(l) == Trim(l)[Len(Trim(l))]
NoInline(l) == IsHead(l) /\ LastTok(l) = ":"

Cut(L, i, j) == SubSeq(L, i, j)
Replace(L, i, new) == Cut(L, 1, i - 1) \o new \o Cut(L, i + 1, Len(L))

---------------------------------------------------------------------------
(* Layout steps.                                                           *)
BlankLines(L) == {Cut(L, 1, i - 1) \o <<b>> \o Cut(L, i, Len(L)) : i \in 2..(Len(L) + 1), b \in {<<>>} \cup {<<x>> : x \in Blanks}}
Trails(L) == {Replace(L, i, <<Append(L[i], b)>>) : i \in {i \in 1..Len(L) : Len(L[i]) < 30}, b \in Blanks}
Indents(L) == {Replace(L, i, <<<<b>> \o L[i]>>) : i \in {i \in 1..Len(L) : L[i] # <<>>}, b \in Blanks \ {"\r"}}
Widens(L) == UNION {{Replace(L, i, <<Replace(L[i], j, <<b, " ">>)>>) : j \in {j \in 2..(Len(L[i]) - 1) : L[i][j] = " "}, b \in Blanks \ {"\r"}}
                    : i \in 1..Len(L)}
Breaks_(L, k) == UNION {{Replace(L, i, <<Cut(L[i], 1, j), Cut(L[i], j + 1, Len(L[i]))>>)
                          : j \in {j \in 1..(Len(L[i]) - 1) : L[i][j] = ","}}
                        : i \in {i \in 2..Len(L) : InCommas(L, k, i)}}
Joins(L, k) == {Replace(Cut(L, 1, i) \o Cut(L, i + 2, Len(L)), i, <<L[i] \o <<" ">> \o L[i + 1]>>)
                 : i \in {i \in 2..(Len(L) - 1) : IsValue(L, i + 1) /\ (NoInline(L[i]) \/
                            (InCommas(L, k, i) /\ Trim(L[i]) # <<>> /\ LastTok(L[i]) = ","))}}
Opens(L) == {LET c == CHOOSE j \in 1..Len(L[i]) : L[i][j] = ":"
             IN  Replace(L, i, <<Cut(L[i], 1, c), Cut(L[i], c + 1, Len(L[i]))>>)
               : i \in {i \in Heads(L) : ~NoInline(L[i])}}
EndCommas(L, k) == {Replace(L, i, <<IF LastTok(L[i]) = "," THEN Cut(Trim(L[i]), 1, Len(Trim(L[i])) - 1) ELSE Append(L[i], ",")>>)
                     : i \in {i \in 2..Len(L) : IsValue(L, i) /\ InCommas(L, k, i)}}
Swaps(L) == {LET m == Ends(L, h) + 1
             IN  Cut(L, 1, h - 1) \o Cut(L, m, Ends(L, m)) \o Cut(L, h, m - 1) \o Cut(L, Ends(L, m) + 1, Len(L))
               : h \in {h \in Heads(L) : Ends(L, h) < Len(L)}}
InHeads(L) == UNION {{Replace(L, h, <<Cut(L[h], 1, j) \o <<b>> \o Cut(L[h], j + 1, Len(L[h]))>>)
                       : j \in {j \in 1..Len(L[h]) : L[h][j] = "*" \/ L[h][j] = KeyOf(L[h])}, b \in Blanks \ {"\r"}} : h \in Heads(L)}
CRLF(L) == {[i \in 1..Len(L) |-> Append(L[i], "\r")]}
Layouts(L, k) == BlankLines(L) \cup Trails(L) \cup Indents(L) \cup Widens(L) \cup Breaks_(L, k) \cup Joins(L, k)
                 \cup Opens(L) \cup EndCommas(L, k) \cup Swaps(L) \cup CRLF(L) \cup InHeads(L)

---------------------------------------------------------------------------
(* Damage.                                                                 *)
NotNumbers == {"abc", "x1", "--1", "#"}
WordsAt(l) == {j \in 1..Len(l) : ~IsBlank(l[j]) /\ l[j] \notin {"*", ":", ","}}
BadHeaders(L, k) ==
    {Replace(L, 1, <<Replace(L[1], j, <<w>>)>>) : j \in WordsAt(L[1]), w \in {"LIBNURB", "libnurbs", "TEXT", "txt", "CURV", "Surface", "X"}}
    \cup {Replace(L, 1, <<Cut(L[1], 1, j - 1) \o Cut(L[1], j + 1, Len(L[1]))>>) : j \in WordsAt(L[1])}
    \cup {Replace(L, 1, <<Replace(L[1], j, <<IF k = "curve" THEN "SURFACE" ELSE "CURVE">>)>>) : j \in {j \in WordsAt(L[1]) : L[1][j] \in {"CURVE", "SURFACE"}}}
    \cup {Replace(L, 1, <<<<>>>>), Tail(L), <<>>}
UnknownSections(L) == {Replace(L, h, <<Replace(L[h], NameAt(L[h]), <<n>>)>>)
                        : h \in Heads(L), n \in {"Foo", "degree", "Weights", "Knot"}}
                      \cup {Cut(L, 1, h - 1) \o x \o Cut(L, h, Len(L)) : h \in Heads(L) \cup {Len(L) + 1},
                            x \in {<<Sect("Extra"), <<"1">>>>, <<Sect("Extra")>>, <<Append(Sect("Extra"), "1")>>, <<Sect("Extra"), <<>>>>}}
Orphans(L) == {Replace(L, 1, <<L[1], x>>) : x \in {<<"1">>, <<"0", ",", "1">>, <<"hello">>}}
NonNumbers(L) == UNION {{Replace(L, i, <<Replace(L[i], j, <<w>>)>>)
                           : j \in {j \in WordsAt(L[i]) : ~IsHead(L[i]) \/ \E c \in 1..j : L[i][c] = ":"}, w \in NotNumbers}
                        : i \in {i \in 2..Len(L) : HasKey(L, i)}}
ShortPoints(L) == UNION {{Replace(L, i, <<Cut(L[i], 1, j - 1) \o Cut(L[i], j + 1, Len(L[i]))>>)
                            : j \in {j \in WordsAt(L[i]) : ~IsHead(L[i]) \/ \E c \in 1..j : L[i][c] = ":"}}
                         : i \in {i \in 2..Len(L) : HasKey(L, i) /\ KeyAt(L, i) = "ControlPoints"}}
DegreeHeads(L) == {h \in Heads(L) : KeyOf(L[h]) \in {"Degree", "DegreeU", "DegreeV"}}
BadDegrees(L) == {Cut(L, 1, Ends(L, h)) \o <<x>> \o Cut(L, Ends(L, h) + 1, Len(L)) : h \in DegreeHeads(L), x \in {<<"2">>, <<"3", " ", "4">>}}
                 \cup {Cut(L, 1, h - 1) \o <<Sect(KeyOf(L[h]))>> \o Cut(L, Ends(L, h) + 1, Len(L)) : h \in DegreeHeads(L)}
NetLines(L) == {i \in 2..Len(L) : IsValue(L, i) /\ KeyAt(L, i) = "ControlPoints"}
BadNets(L, k) == IF k = "curve" THEN {}
                 ELSE {Cut(L, 1, i - 1) \o Cut(L, i + 1, Len(L)) : i \in NetLines(L)}
                      \cup {Cut(L, 1, i) \o Cut(L, i, Len(L)) : i \in {i \in NetLines(L) : Len(Words(L[i])) = 4}}
                      \cup {Replace(L, i, <<d>>) : i \in {i \in NetLines(L) : Len(Words(L[i])) = 2},
                                                   d \in {<<"2", " ", "3">>, <<"3", " ", "4">>, <<"4", " ", "2">>, <<"0", " ", "9">>, <<"9", " ", "0">>, <<"0", " ", "0">>, <<"-1", " ", "-2">>, <<"3">>, <<"3", " ", "x">>,
                                                         \* 9 modulo 2^32, 9 modulo 2^16, and beyond int
                                                         <<"5", " ", "858993461">>, <<"858993461", " ", "5">>, <<"73", " ", "117670337">>, <<"9", " ", "65537">>, <<"3", " ", "4294967299">>}}
                      \cup {Cut(L, 1, i - 1) \o <<d>> : i \in {i \in NetLines(L) : Len(Words(L[i])) = 2 /\ HeadOf(L, i) = HeadOf(L, Len(L))},
                                                     d \in {<<"65536", " ", "65536">>, <<"1073741824", " ", "4">>}}
Damaged(L, k) == BadHeaders(L, k) \cup UnknownSections(L) \cup Orphans(L) \cup NonNumbers(L) \cup ShortPoints(L) \cup BadDegrees(L) \cup BadNets(L, k)

---------------------------------------------------------------------------
Init == /\ NurbsInit /\ kind \in Kinds /\ lines = Original(kind) /\ nl = TRUE /\ depth = 0 /\ bad = FALSE
Layout == /\ ~bad /\ depth < MaxDepth /\ depth' = depth + 1
          /\ \/ lines' \in Layouts(lines, kind) /\ UNCHANGED nl
             \/ nl /\ nl' = FALSE /\ UNCHANGED lines
          /\ UNCHANGED <<kind, bad, heap, disk, memo>>
Break == /\ Damage /\ ~bad /\ bad' = TRUE /\ lines' \in Damaged(lines, kind) /\ UNCHANGED <<kind, nl, depth, heap, disk, memo>>
Next == Layout \/ Break
Spec == Init /\ [][Next]_mcvars
View == <<kind, lines, nl, bad>>

(* Layout never changes the object; damaged files are refused.             *)
SameObject == ~bad => LoadText(FileKind(kind), lines) = Val(Object(kind))
Refused == bad => LoadText(FileKind(kind), lines).st = "err"

---------------------------------------------------------------------------
TokS(t) == IF t = "\t" THEN "~t" ELSE IF t = "\r" THEN "~r" ELSE IF t = " " THEN "_" ELSE t
LineS(l) == Join([i \in 1..Len(l) |-> TokS(l[i])], "^")
Text == Join([i \in 1..Len(lines) |-> LineS(lines[i])], "!")
(* Rendered by tools/files.py: the tokens of each line written down, lines *)
(* ended by a line feed.                                                   *)
Emit == (IF Damage THEN bad ELSE TRUE) =>
        Behaviour(<<"TXT y " \o kind \o (IF nl THEN " nl " ELSE " no ") \o Str(Len(lines)) \o " " \o Text>>)
=============================================================================
