-------------------------------- MODULE Widen --------------------------------
(***************************************************************************)
(* Programs of any length, as far as length comes from repeating           *)
(* something: a beginning, some items said over and over, and an ending.   *)
(* The parser machine reads the program with the items said Some times,    *)
(* then once, twice and three times more.  Where the trees differ by       *)
(* insertion alone -- every time more inserts the same piece of tree at    *)
(* the same place and only renumbers what comes behind it -- the program   *)
(* is printed with its tree and that piece; the harness says the items     *)
(* very often and expects what inserting gives.                            *)
(***************************************************************************)
EXTENDS Parser, Stock, Json

CONSTANTS Spans,    \* a piece of a stock program said often: as many items as this
          Inserts   \* names of what is put between its items

VARIABLES plan,  \* beginning, items, ending
          trees  \* of Some, Some + 1, ... times

wvars == <<pvars, plan, trees>>

Some == 3
More == 3

InsertsOf == [
    statements |-> {<<"GTFO", "NL">>, <<"Id", "R", "Lit", "NL">>, <<"I_HAS_A", "Id", "Comma">>, <<"Lit", "Id", "NL">>, <<"O_RLY", "Qm", "NL", "OIC", "NL">>,
                    <<"CM2", "NL", "I_HAS_A", "NL">>, <<"IM_IN_YR", "Id", "NL", "IM_OUTTA_YR", "Id", "NL">>, <<"HOW_IZ_I", "Id", "NL", "GTFO", "NL", "IF_U_SAY_SO", "NL">>,
                    <<"WTF", "Qm", "NL", "OMG", "Lit", "NL", "GTFO", "NL", "OIC", "NL">>, <<"Comma">>, <<"NL">>, <<"CS", "NL">>, <<"O_RLY", "NL">>},
    sections |-> {<<"MEBBE", "Id", "NL">>, <<"MEBBE", "Id", "NL", "I_HAS_A", "NL">>, <<"OMG", "Lit", "NL">>, <<"OMG", "Lit", "NL", "GTFO", "NL", "Id", "Id", "NL">>},
    operands |-> {<<"AN", "Id">>, <<"Lit">>, <<"Id", "AN">>, <<"AN", "YR", "Id">>, <<"YR", "Lit", "AN">>, <<"Slot", "Id">>, <<"Slot", "SRS", "Id">>, <<"NOT", "Id">>,
                  <<"SMOOSH", "Id", "MKAY", "AN">>, <<"SUM_OF", "Id", "AN", "Lit">>, <<"ALL_OF", "MKAY">>, <<"Id", "Slot", "Id">>},
    layout |-> {<<"CM">>, <<"CM2">>, <<"Ell", "NL">>, <<"Ell", "CM", "NL">>, <<"ML">>, <<"Sym">>}]

\* The places between statements.
Gaps(p) == {i \in 0..Len(p) : i = 0 \/ (p[i] \in {"NL", "Comma"} /\ (i = 1 \/ p[i - 1] # "Ell"))}
Places(p, name) == IF name \in {"statements", "sections"} THEN Gaps(p) ELSE 0..Len(p)

Plans == UNION {LET p == StockPrograms[k] IN
    {<<SubSeq(p, 1, i - 1), SubSeq(p, i, i + n - 1), SubSeq(p, i + n, Len(p))>> : <<i, n>> \in {x \in (1..Len(p)) \X Spans : x[1] + x[2] - 1 <= Len(p)}}
    \cup UNION {{<<SubSeq(p, 1, i), u, SubSeq(p, i + 1, Len(p))>> : i \in Places(p, name), u \in InsertsOf[name]} : name \in Inserts}
    : k \in 1..Len(StockPrograms)}

Said(pl, m) == pl[1] \o [i \in 1..(m * Len(pl[2])) |-> pl[2][((i - 1) % Len(pl[2])) + 1]] \o pl[3]

Init == /\ plan \in Plans /\ trees = << >>
        /\ prog = Said(plan, Some) /\ phase = "type" /\ Reset
Again == /\ phase = "done" /\ trees' = Append(trees, out)
         /\ IF Len(trees) = More THEN phase' = "over" /\ UNCHANGED <<prog, segs, g, frames, out>>
            ELSE /\ prog' = Said(plan, Some + Len(trees) + 1) /\ phase' = "type"
                 /\ segs' = << >> /\ g' = 1 /\ frames' = << >> /\ out' = << >>
         /\ UNCHANGED plan
Next == (phase = "type" /\ Load /\ UNCHANGED <<plan, trees>>) \/ (ParseNext /\ UNCHANGED <<plan, trees>>) \/ Again
Spec == Init /\ [][Next]_wvars

-----------------------------------------------------------------------------
(* The law.                                                                *)

TokensIn(ks) == Cardinality({i \in 1..Len(ks) : ks[i] # NLine})
IsToken(ev) == SubSeq(ev, 1, 1) = "#"
\* Tokens after the c-th are counted d further.
Moved(t, c, d) == [i \in 1..Len(t) |-> IF IsToken(t[i]) /\ TokenNo(t[i]) > c THEN "#" \o ToString(TokenNo(t[i]) + d) ELSE t[i]]

RECURSIVE Common(_, _, _)
Common(s, t, n) == IF n < Len(s) /\ n < Len(t) /\ s[n + 1] = t[n + 1] THEN Common(s, t, n + 1) ELSE n

RECURSIVE Copies(_, _, _, _, _)
Copies(x, c, d, k, j) == IF k = j THEN << >> ELSE Moved(x, c, k * d) \o Copies(x, c, d, k + 1, j)

Widened(t, p, x, lead, c, d, j) == SubSeq(t, 1, p) \o Copies(x, lead, d, 0, j) \o Moved(SubSeq(t, p + 1, Len(t)), c, j * d)

\* What opens a level for what comes after it.
Nesting == BinaryKinds \cup NaryKinds \cup OpenerKinds \cup {"NOT"}

Lead == TokensIn(plan[1])
Each == TokensIn(plan[2])
At == Common(trees[1], trees[2], 0)
Piece == SubSeq(trees[2], At + 1, At + Len(trees[2]) - Len(trees[1]))
Fits(c) == \A j \in 1..More : trees[j + 1] = Widened(trees[1], At, Piece, Lead, c, Each, j)
Thresholds == {Lead + k * Each : k \in 0..Some}
\* Nothing is opened that the piece does not close: otherwise the items nest.
Flat == LET opening == Cardinality({i \in 1..Len(plan[2]) : plan[2][i] \in Nesting})
        IN opening > 0 => /\ Balance(Piece) = 0
                          /\ Cardinality({i \in 1..Len(Piece) : IsToken(Piece[i])}) >= Each - Cardinality({i \in 1..Len(plan[2]) : plan[2][i] \in {"Comma", "Ell", "Qm", "AN", "CS", "CM", "CM2"}})
Regular == /\ Len(trees[2]) >= Len(trees[1])
           /\ Balance(Piece) = 0
           /\ Flat
           /\ \E c \in Thresholds : Fits(c)

\* Saying a whole statement or a comment more often never does anything but insert.
Always == phase = "over" /\ plan[2] \in {<<"GTFO", "NL">>, <<"Id", "R", "Lit", "NL">>, <<"Lit", "Id", "NL">>, <<"CM">>, <<"NL">>}
             /\ (plan[1] = << >> \/ plan[2] = <<"CM">> \/ plan[1][Len(plan[1])] \in {"NL", "Comma"}) => Regular
WellBracketed == phase = "done" => Bracketed
Emit == phase = "over" => IF Regular
                          THEN PrintT(ToJson(<<Said(plan, Some), trees[1], plan[1], plan[2], plan[3], Some, At, Piece, CHOOSE c \in Thresholds : Fits(c), Lead>>))
                          ELSE TRUE
=============================================================================
