-------------------------------- MODULE Soup ---------------------------------
(***************************************************************************)
(* Every program over a small alphabet, grammatical or not: TLC types all  *)
(* of them up to a length and runs the parser machine on each.  A letter   *)
(* is a token, a separator or a whole line; Before and After frame what is *)
(* typed so that short programs reach deep into a construct.               *)
(***************************************************************************)
EXTENDS Sentence, Stock, Json

CONSTANTS Chosen,      \* names of the alphabets explored
          MaxLetters   \* letters typed at most (fewer where lines are letters)

VARIABLES theme,    \* the alphabet of this program
          left      \* letters that may still be typed

Letters(ks) == {<<k>> : k \in ks}

\* Theme: alphabet, what is typed before, what after.
Themes == [
    assign |-> [ls |-> Letters({"Id", "R", "Lit", "SRS", "Slot", "HAS_A", "ITZ", "NOT"}), before |-> << >>, after |-> << >>],
    slotset |-> [ls |-> Letters({"Id", "SRS", "Slot", "ITZ", "Lit", "AN"}), before |-> <<"Id", "HAS_A">>, after |-> << >>],
    decl |-> [ls |-> Letters({"Id", "SRS", "ITZ", "Lit", "NUMBR", "NOOB", "Slot", "A"}), before |-> <<"I_HAS_A">>, after |-> << >>],
    call |-> [ls |-> Letters({"Id", "YR", "Lit", "AN", "MKAY", "Slot", "SMOOSH"}), before |-> <<"I_IZ">>, after |-> << >>],
    expr |-> [ls |-> Letters({"SUM_OF", "NOT", "SMOOSH", "Id", "Lit", "AN", "MKAY", "Slot"}), before |-> << >>, after |-> << >>],
    noob |-> [ls |-> Letters({"NOOB", "WIN", "NOT", "SMOOSH", "MKAY", "DIFF_OF", "SRS", "Id"}), before |-> << >>, after |-> << >>],
    nary |-> [ls |-> Letters({"ALL_OF", "BOTH_OF", "Id", "AN", "MKAY", "SRS"}), before |-> << >>, after |-> << >>],
    visible |-> [ls |-> Letters({"Lit", "Bang", "ANY_OF", "Id", "MKAY", "AN", "Slot"}), before |-> <<"VISIBLE">>, after |-> << >>],
    input |-> [ls |-> Letters({"GIMMEH", "FOUND_YR", "Id", "SRS", "Slot", "Lit", "NOT"}), before |-> << >>, after |-> << >>],
    plain |-> [ls |-> Letters({"HAI", "KTHXBYE", "GTFO", "Lit", "Id", "NL", "Comma"}), before |-> << >>, after |-> << >>],
    odd |-> [ls |-> Letters({"Sym", "Bang", "Qm", "A", "MAEK", "IS_NOW", "YR", "Id"}), before |-> << >>, after |-> << >>],
    loophead |-> [ls |-> Letters({"Id", "UPPIN", "NERFIN", "YR", "TIL", "WILE", "Lit", "SRS"}), before |-> <<"IM_IN_YR">>,
                  after |-> <<"NL", "GTFO", "NL", "IM_OUTTA_YR", "Id", "NL", "Id">>],
    loopcond |-> [ls |-> Letters({"TIL", "WILE", "Lit", "NOT", "Id", "Slot", "AN"}), before |-> <<"IM_IN_YR", "Id", "UPPIN", "YR", "Id">>,
                  after |-> <<"NL", "IM_OUTTA_YR", "Id", "NL", "Id">>],
    loopend |-> [ls |-> Letters({"IM_OUTTA_YR", "Id", "Lit", "NL", "Comma", "GTFO"}), before |-> <<"IM_IN_YR", "Id", "NL", "GTFO", "NL">>,
                 after |-> << >>],
    funchead |-> [ls |-> Letters({"Id", "SRS", "YR", "AN", "Lit", "Slot"}), before |-> <<"HOW_IZ_I">>,
                  after |-> <<"NL", "GTFO", "NL", "IF_U_SAY_SO", "NL", "Id">>],
    ask |-> [ls |-> Letters({"O_RLY", "WTF", "Qm", "Sym", "NL", "Comma", "OIC", "YA_RLY"}), before |-> << >>, after |-> << >>],
    cond |-> [ls |-> Letters({"MEBBE", "OMG", "NOT", "Lit", "NL", "Id"}), before |-> <<"O_RLY", "Qm", "NL">>,
              after |-> <<"NL", "OIC", "NL", "Id">>],
    case |-> [ls |-> Letters({"OMG", "OMGWTF", "NOT", "Lit", "NL", "Id"}), before |-> <<"WTF", "Qm", "NL">>,
              after |-> <<"NL", "OIC", "NL", "Id">>],
    if |-> [ls |-> {<<"YA_RLY", "NL">>, <<"MEBBE", "Id", "NL">>, <<"NO_WAI", "NL">>, <<"OIC", "NL">>, <<"GTFO", "NL">>,
                    <<"O_RLY", "Qm", "NL">>, <<"MEBBE", "NL">>, <<"Id", "Id", "NL">>}, before |-> <<"O_RLY", "Qm", "NL">>, after |-> << >>],
    switch |-> [ls |-> {<<"OMG", "Lit", "NL">>, <<"OMGWTF", "NL">>, <<"OIC", "NL">>, <<"GTFO", "NL">>, <<"WTF", "Qm", "NL">>,
                        <<"OMG", "NL">>, <<"OIC", "Id", "NL">>}, before |-> <<"WTF", "Qm", "NL">>, after |-> << >>],
    sections |-> [ls |-> {<<"YA_RLY", "NL">>, <<"MEBBE", "Id", "NL">>, <<"NO_WAI", "NL">>, <<"I_HAS_A", "NL">>, <<"GTFO", "NL">>},
                  before |-> <<"O_RLY", "Qm", "NL">>, after |-> <<"OIC", "NL", "Id">>],
    cases |-> [ls |-> {<<"OMG", "Lit", "NL">>, <<"OMGWTF", "NL">>, <<"Id", "Id", "NL">>, <<"Lit", "NL">>}, before |-> <<"WTF", "Qm", "NL">>, after |-> <<"OIC", "NL", "Id">>],
    loop |-> [ls |-> {<<"IM_IN_YR", "Id", "NL">>, <<"IM_OUTTA_YR", "Id", "NL">>, <<"GTFO", "NL">>, <<"IM_OUTTA_YR", "NL">>,
                      <<"IM_IN_YR", "NL">>, <<"Id", "R", "NL">>}, before |-> << >>, after |-> << >>],
    func |-> [ls |-> {<<"HOW_IZ_I", "Id", "NL">>, <<"IF_U_SAY_SO", "NL">>, <<"FOUND_YR", "Lit", "NL">>, <<"HOW_IZ_I", "NL">>,
                      <<"IF_U_SAY_SO", "Id", "NL">>, <<"FOUND_YR", "NL">>}, before |-> << >>, after |-> << >>],
    nest |-> [ls |-> {<<"HOW_IZ_I", "Id", "NL">>, <<"IF_U_SAY_SO", "NL">>, <<"IM_IN_YR", "Id", "NL">>, <<"IM_OUTTA_YR", "Id", "NL">>,
                      <<"O_RLY", "Qm", "NL">>, <<"YA_RLY", "NL">>, <<"NO_WAI", "NL">>, <<"OIC", "NL">>, <<"WTF", "Qm", "NL">>,
                      <<"OMG", "Lit", "NL">>, <<"GTFO", "NL">>}, before |-> << >>, after |-> << >>],
    commas |-> [ls |-> {<<"O_RLY", "Qm">>, <<"YA_RLY">>, <<"NO_WAI">>, <<"OIC">>, <<"Comma">>, <<"GTFO">>, <<"NL">>},
                before |-> <<"Lit", "Comma">>, after |-> << >>],
    layout |-> [ls |-> Letters({"HAI", "Id", "NL", "Comma", "Ell", "CM", "CM2", "ML"}), before |-> << >>, after |-> << >>],
    join |-> [ls |-> Letters({"NL", "Comma", "Ell", "CM2"}) \cup {<<"CS", "NL">>}, before |-> <<"I_HAS_A">>, after |-> <<"Id">>],
    blockjoin |-> [ls |-> Letters({"NL", "Comma", "Ell", "CM"}) \cup {<<"CS", "NL">>}, before |-> <<"O_RLY", "Qm", "NL", "YA_RLY">>,
                   after |-> <<"OIC", "NL", "Id">>],
    every |-> [ls |-> Letters(AllKinds), before |-> <<"GTFO", "Comma">>, after |-> << >>],
    pause |-> [ls |-> Letters({"Bang", "Qm", "Sym", "AN", "NL", "Comma", "Ell", "Id", "GTFO", "Lit"}), before |-> << >>, after |-> << >>]]

Text == Themes[theme]
\* Alphabets whose letters are lines grow faster; those with few letters need longer words.
Fewer == [x \in DOMAIN Themes |-> IF x = "nest" THEN 1 ELSE IF x = "every" THEN MaxLetters - 2 ELSE IF x \in {"sections", "cases"} THEN -1 ELSE 0]

SInit == /\ theme \in Chosen /\ prog = Themes[theme].before
         /\ left = MaxLetters - Fewer[theme] /\ phase = "type" /\ Reset

Type == /\ phase = "type" /\ left > 0
        /\ \E l \in Text.ls : prog' = prog \o l
        /\ left' = left - 1 /\ UNCHANGED <<theme, segs, g, frames, out, phase>>
Close == /\ phase = "type"
         /\ prog' = prog \o Text.after /\ phase' = "typed"
         /\ UNCHANGED <<theme, left, segs, g, frames, out>>
Start == phase = "typed" /\ Load /\ UNCHANGED <<theme, left>>
SNext == Type \/ Close \/ Start \/ (ParseNext /\ UNCHANGED <<theme, left>>)
SSpec == SInit /\ [][SNext]_<<pvars, theme, left>>

-----------------------------------------------------------------------------
(* What TLC checks besides Total, Bracketed and InOrder.                   *)

\* C12: every token of the program that is not a separator, a comment or a dropped word is
\* accounted for: a simple statement either is one node without errors, or one error followed by
\* all tokens behind it, or one node followed by all tokens behind it.
Simple(s) == K(s, 1) \notin OpenerKinds
OneReport == phase = "typed" =>
    \A i \in 1..Len(Statements(prog)) :
       LET s == Statements(prog)[i] r == SimpleStatement(s) IN
       Simple(s) => /\ r.n >= 2 /\ r.n <= Len(s.k) + 1
                    /\ (~r.ok => Balance(r.e) = 0)
                    /\ Len(TokenEvents(LeftOver(s, r.n))) = Len(s.k) + 1 - r.n

Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
