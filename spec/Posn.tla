-------------------------------- MODULE Posn ---------------------------------
(***************************************************************************)
(* Position arithmetic: a position is advanced by pieces of text.  TLC     *)
(* explores all sequences of pieces and checks that advancing over a piece *)
(* at once, character by character, and over all pieces together agree,    *)
(* and that positions are ordered as the places they name.                 *)
(***************************************************************************)
EXTENDS Text, TLC, Json

CONSTANTS Stock,    \* which pieces
          MaxPieces

VARIABLES start,    \* position of the first piece
          pieces,   \* <<unit, times>>: the unit of text repeated
          marks     \* positions after each piece

vars == <<start, pieces, marks>>

U(s) == Cps(s)
\* Characters some library counts differently, or that are first or last of their length.
Odd == {0, 7, 8, 11, 12, 28, 31, 127, 128, 133, 160, 173, 769, 1564, 2047, 2048, 4352, 4449, 4520, 8203, 8204, 8205, 8206, 8232, 8233, 8288,
        8419, 12288, 55295, 57344, 65024, 65039, 65279, 65281, 65533, 65535, 65536, 127995, 131072, 917505, 917760, 983040, 1114111}
Tested == (0..8399) \cup {c \in 8400..55295 : c % 37 = 0} \cup {c \in 57344..1114111 : c % 251 = 0} \cup Odd

Pieces ==
    CASE Stock = "short" ->
           {<<p, 1>> : p \in {<< >>, U("a"), <<NL>>, <<233>>, <<128512>>, <<CR, NL>>, <<TAB>>, <<NL, NL>>, <<101, 769>>,
                              <<8364, NL>>, <<8232>>, <<133>>, <<11>>, U("ab") \o <<NL>> \o U("cd"), <<NL, 233>>, <<CR>>, <<0>>}}
      [] Stock = "marks" ->
           {<<p, 1>> : p \in {<<c>> : c \in Odd} \cup {U("a"), <<NL>>, <<128105, 8205, 128187>>, <<127462, 127463>>, <<65, 778>>}}
      \* Single characters, all of them in Tested.
      [] Stock = "each" -> {<<<<c>>, 1>> : c \in Tested}
      [] Stock = "all" -> {<<<<c>>, 1>> : c \in (0..55295) \cup (57344..1114111)}
      [] Stock = "few" ->
           {<<p, 1>> : p \in {U("ab"), <<NL>>, <<233>>, <<128512, NL, 97>>, <<CR>>}}
      [] Stock = "long" ->
           {<<p, k>> : p \in {U("a"), <<NL>>, <<233>>, <<128512>>, <<97, NL, 8364>>}, k \in {2, 255, 256, 70000}}

Starts == IF Stock \in {"each", "all"} THEN {[l |-> 7, c |-> 3, b |-> 40, h |-> 31]} ELSE {Origin, [l |-> 7, c |-> 3, b |-> 40, h |-> 31], [l |-> 65536, c |-> 300, b |-> 1000000, h |-> 70001],
           [l |-> 1, c |-> 5, b |-> 4, h |-> 4]}

\* Over a unit repeated k times.
Many(p, u, k) ==
    LET one == Advance(p, u) two == Advance(one, u) IN
    IF k = 0 THEN p ELSE
    [l |-> one.l + (k - 1) * (two.l - one.l),
     c |-> IF \E m \in 1..Len(u) : u[m] = NL THEN one.c ELSE one.c + (k - 1) * (two.c - one.c),
     b |-> one.b + (k - 1) * (two.b - one.b),
     h |-> one.h + (k - 1) * (two.h - one.h)]

Here == IF marks = << >> THEN start ELSE marks[Len(marks)]

Init == start \in Starts /\ pieces = << >> /\ marks = << >>
Append_ == /\ Len(pieces) < MaxPieces
           /\ \E p \in Pieces : /\ pieces' = Append(pieces, p)
                                /\ marks' = Append(marks, Many(Here, p[1], p[2]))
           /\ UNCHANGED start
Spec == Init /\ [][Append_]_vars

-----------------------------------------------------------------------------
RECURSIVE OneByOne(_, _)
OneByOne(p, t) == IF t = << >> THEN p ELSE OneByOne(AdvanceChar(p, t[1]), Tail(t))
RECURSIVE Joined(_)
Joined(ps) == IF ps = << >> THEN << >> ELSE Head(ps)[1] \o Joined(Tail(ps))
\* Piece by piece, all together and character by character agree.
Together == (Stock # "long" /\ marks # << >>) => /\ Here = Advance(start, Joined(pieces))
                                                 /\ Here = OneByOne(start, Joined(pieces))
Twice == (Stock = "long" /\ marks # << >>) =>
    \A k \in 1..Len(pieces) : pieces[k][2] = 2 =>
       marks[k] = Advance(IF k = 1 THEN start ELSE marks[k - 1], pieces[k][1] \o pieces[k][1])
\* A later place is after an earlier one, by lines and columns as well as by offsets.
Later(a, b) == a.l < b.l \/ (a.l = b.l /\ a.c < b.c)
Ordered == \A x \in 1..Len(marks) : \A y \in (x + 1)..Len(marks) :
    /\ (marks[x].b < marks[y].b) = Later(marks[x], marks[y])
    /\ (marks[x].b = marks[y].b) = (marks[x] = marks[y])
    /\ marks[x].h <= marks[y].h

Emit == pieces # << >> => PrintT(ToJson(<<PosTuple(start), pieces, [k \in 1..Len(marks) |-> PosTuple(marks[k])]>>))
=============================================================================
