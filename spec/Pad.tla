-------------------------------- MODULE Pad ----------------------------------
(***************************************************************************)
(* The small programs made large in one place: many statements between two *)
(* of theirs, one of their tokens many times over, or all of it inside     *)
(* many constructs.                                                        *)
(***************************************************************************)
EXTENDS Parser, Stock, Json

CONSTANTS Many,      \* how many statements
          Stutters,  \* how many of the same token
          Depths     \* how many constructs around

Times(n, ks) == [i \in 1..(n * Len(ks)) |-> ks[((i - 1) % Len(ks)) + 1]]

Fillers == {<<"GTFO", "NL">>, <<"Id", "R", "Lit", "NL">>, <<"I_HAS_A", "Id", "Comma">>, <<"Lit", "Id", "NL">>,
            <<"O_RLY", "Qm", "NL", "OIC", "NL">>, <<"CM2", "NL", "I_HAS_A", "NL">>}

\* The places between statements.
Gaps(p) == {i \in 0..Len(p) : i = 0 \/ (p[i] \in {"NL", "Comma"} /\ (i = 1 \/ p[i - 1] # "Ell"))}

Wrappers == {<< <<"IM_IN_YR", "Id", "NL">>, <<"NL", "IM_OUTTA_YR", "Id">> >>,
             << <<"HOW_IZ_I", "Id", "NL">>, <<"NL", "IF_U_SAY_SO">> >>,
             << <<"O_RLY", "Qm", "NL", "YA_RLY", "NL">>, <<"NL", "OIC">> >>,
             << <<"O_RLY", "Qm", "NL", "MEBBE", "Id", "NL">>, <<"NL", "NO_WAI", "NL", "OIC">> >>,
             << <<"O_RLY", "Qm", "NL", "YA_RLY", "NL", "NO_WAI", "NL">>, <<"NL", "OIC", "NL", "Id">> >>,
             << <<"WTF", "Qm", "NL", "OMG", "Lit", "NL">>, <<"NL", "OIC">> >>,
             << <<"WTF", "Qm", "NL", "OMGWTF", "NL", "GTFO", "NL">>, <<"NL", "OIC">> >>}

Init == /\ \E k \in 1..Len(StockPrograms) : LET p == StockPrograms[k] IN
             \/ \E i \in Gaps(p), f \in Fillers, n \in Many :
                   /\ n > 100 => f \in {<<"GTFO", "NL">>, <<"Lit", "Id", "NL">>}
                   /\ prog = SubSeq(p, 1, i) \o Times(n, f) \o SubSeq(p, i + 1, Len(p))
             \/ \E i \in 1..Len(p), n \in Stutters : prog = SubSeq(p, 1, i - 1) \o Times(n, <<p[i]>>) \o SubSeq(p, i + 1, Len(p))
             \/ \E w \in Wrappers, n \in Depths : prog = Times(n, w[1]) \o p \o Times(n, w[2])
        /\ phase = "type" /\ Reset
Next == (phase = "type" /\ Load) \/ ParseNext
Spec == Init /\ [][Next]_pvars

WellBracketed == phase = "done" => Bracketed
Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
