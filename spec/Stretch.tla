------------------------------ MODULE Stretch -------------------------------
(***************************************************************************)
(* Texts of any length, as far as length comes from repeating something.   *)
(* A text is a beginning, a unit said over and over, and an ending.        *)
(* Saying the unit Some+j times instead of Some times must do no more than *)
(* insert: into the one token that spans the middle of the run, or j times *)
(* the tokens one unit makes there; everything after the middle moves.     *)
(* TLC checks that law against the machine's rules for small j and prints  *)
(* the tokens at Some; the harness says the unit very often and compares   *)
(* the real tokenizer with what the law then gives.                        *)
(***************************************************************************)
EXTENDS Lexer, Json

CONSTANT Kind    \* "inside" a construct, or tokens "again" and again

VARIABLE plan    \* beginning, unit and ending

Some == 12

U(s) == Cps(s)
EACUTE == 233  EMOJI == 128512

Plans ==
    IF Kind = "inside"
    THEN {U("x "), << >>}  \X {U("\""), U("BTW"), U("OBTW"), U("a"), U("-"), U("0."), U("_")}
             \X {U("a"), <<EACUTE>>, <<EMOJI>>, <<NL>>, <<CR, NL>>, U(" "), <<TAB>>, U(","), U(":\""), U("::"), U("TLD"), U("OBTW "), U("0"), U("9"), U("_R")}
             \X {<< >>, U("\" y") \o <<NL>> \o U("z"), U("TLDR y") \o <<NL>> \o U("z"), <<NL>> \o U("y"), U("1 y")}
    ELSE {U("HAI 1.2"), << >>, <<EACUTE>>} \X {<<SP>>}
             \X {U("x "), U("AN "), U("'Z"), U(", "), U("...") \o <<NL>>, U("\"a\" "), U("1 "), U("1.5,"), U("#"), <<EACUTE>>, U("BTW c") \o <<NL>>,
                 U("OBTW TLDR "), U("WIN "), U("VISIBLE x") \o <<NL>>, U("I HAS A y ITZ 7") \o <<CR, NL>>, <<NL>>, U(" "), <<TAB>>, <<CR, NL>>,
                 U("!"), U("? "), <<ELLIPSIS>>, U("NOOB") \o <<NL>>, <<QUOTE, EMOJI, NL, QUOTE, SP>>, U("99999999999 "), U("'")}
             \X {<< >>, <<SP>> \o U("y"), U("\"") \o <<NL>> \o U("\" z")}

Before(pl) == pl[1] \o pl[2]
Unit(pl) == pl[3]
After(pl) == pl[4]
Times(u, m) == [k \in 1..(m * Len(u)) |-> u[((k - 1) % Len(u)) + 1]]
Said(pl, m) == Before(pl) \o Times(Unit(pl), m) \o After(pl)

SInit == /\ plan \in {<<q[1], q[2], q[3], q[4]>> : q \in Plans}
         /\ src = Said(plan, Some)
         /\ i = 1 /\ pos = Origin /\ toks = << >> /\ status = "run"
SNext == LexNext /\ UNCHANGED plan
SSpec == SInit /\ [][SNext]_<<lvars, plan>>

-----------------------------------------------------------------------------
\* The machine's outcome on a text, at once.
RECURSIVE RunFrom(_, _, _, _)
RunFrom(txt, at, p, out) ==
    IF at > Len(txt) THEN <<"ok", out>>
    ELSE LET t == LexAt(txt, at) q == AdvanceOver(p, txt, at, t.end)
         IN CASE t.kind = "blank" -> RunFrom(txt, t.end, q, out)
              [] t.kind = "unclosed" -> <<"err", <<PosTuple(p), PosTuple(q)>>>>
              [] OTHER -> RunFrom(txt, t.end, q, Append(out, <<t.kind, t.pay, PosTuple(p), PosTuple(q)>>))
Outcome(txt) == RunFrom(txt, 1, Origin, << >>)

-----------------------------------------------------------------------------
(* The law.                                                                *)

Bytes(u) == BytesIn(u, 1, Len(u) + 1)
Lines(u) == Cardinality({k \in 1..Len(u) : u[k] = NL})
Half(pl) == Len(Before(pl)) + (Some \div 2) * Len(Unit(pl))

\* A place at or after the middle of the run, when the unit is said j times more.  mid is the
\* line the middle is on.
Moved(pl, mid, p, j) ==
    LET u == Unit(pl)
    IN <<p[1] + j * Lines(u), IF Lines(u) = 0 /\ p[1] = mid THEN p[2] + j * Len(u) ELSE p[2], p[3] + j * Bytes(u), p[4] + j * Len(u)>>

\* What a token's payload becomes: where it quotes the text, the text.
Longer(pl, t, j) ==
    LET u == Unit(pl)
        lead == CASE t[1] = "str" -> 1 [] t[1] = "cs" -> 3 [] t[1] = "cm" -> 4 [] OTHER -> 0
        cut == Half(pl) - t[3][4] - lead
    IN IF t[1] \in {"str", "cs", "cm", "id", "sym", "float"}
       THEN SubSeq(t[2], 1, cut) \o Times(u, j) \o SubSeq(t[2], cut + 1, Len(t[2]))
       ELSE t[2]

RECURSIVE Copies(_, _, _, _, _)
Copies(pl, mid, cycle, k, j) ==
    IF k > j THEN << >>
    ELSE [m \in 1..Len(cycle) |-> <<cycle[m][1], cycle[m][2], Moved(pl, mid, cycle[m][3], k), Moved(pl, mid, cycle[m][4], k)>>] \o Copies(pl, mid, cycle, k + 1, j)

Stretched(pl, st, ts, j) ==
    LET half == Half(pl)
        mid == CountedPos(Said(pl, Some), half + 1).l
        Place(p) == IF p[4] >= half THEN Moved(pl, mid, p, j) ELSE p
    IN IF st = "err" THEN [k \in 1..2 |-> Place(ts[k])]
       ELSE LET left == SelectSeq(ts, LAMBDA t : t[4][4] <= half)
                over == SelectSeq(ts, LAMBDA t : t[3][4] < half /\ t[4][4] > half)
                right == SelectSeq(ts, LAMBDA t : t[3][4] >= half)
                cycle == IF over # << >> THEN << >> ELSE SelectSeq(right, LAMBDA t : t[3][4] < half + Len(Unit(pl)))
            IN left \o [k \in 1..Len(over) |-> <<over[k][1], Longer(pl, over[k], j), over[k][3], Moved(pl, mid, over[k][4], j)>>]
                    \o Copies(pl, mid, cycle, 0, j - 1)
                    \o [k \in 1..Len(right) |-> <<right[k][1], right[k][2], Moved(pl, mid, right[k][3], j), Moved(pl, mid, right[k][4], j)>>]


Law == status \in {"ok", "err"} =>
         /\ Outcome(src) = <<status, toks>>
         /\ \A j \in 1..3 : Outcome(Said(plan, Some + j)) = <<status, Stretched(plan, status, toks, j)>>

Emit == status \in {"ok", "err"} => PrintT(ToJson(<<src, status, toks, Before(plan), Unit(plan), After(plan), Some>>))
=============================================================================
