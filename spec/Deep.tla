-------------------------------- MODULE Deep ---------------------------------
(***************************************************************************)
(* Programs whose size is what is unusual: the same piece repeated n times *)
(* in depth or in width.                                                   *)
(***************************************************************************)
EXTENDS Parser, Json

CONSTANTS Sizes      \* how often

Times(n, ks) == [i \in 1..(n * Len(ks)) |-> ks[((i - 1) % Len(ks)) + 1]]

Shapes == {"not", "left", "right", "both", "closed", "open", "wide", "mixed", "slots", "srs", "args", "params", "print",
           "version", "then", "else", "mebbes", "cases", "switches", "loops", "loopheads", "funcs", "nest", "unclosed",
           "unclosedloops", "closers", "lines", "commas", "onecommas", "blanks", "dots", "joined", "joins", "notes",
           "errors", "extra", "after", "chain", "endlabels", "sections", "multi"}

Program(shape, n) ==
  CASE shape = "not" -> Times(n, <<"NOT">>) \o <<"Lit">>
    [] shape = "left" -> Times(n, <<"SUM_OF">>) \o <<"Lit">> \o Times(n, <<"AN", "Lit">>)
    [] shape = "right" -> Times(n, <<"SUM_OF", "Id", "AN">>) \o <<"Lit">>
    [] shape = "both" -> <<"Id", "R">> \o Times(n, <<"SUM_OF", "NOT", "Id">>) \o <<"Lit">>
    [] shape = "closed" -> <<"VISIBLE">> \o Times(n, <<"SMOOSH">>) \o <<"Lit">> \o Times(n, <<"MKAY">>) \o <<"Lit", "Bang">>
    [] shape = "open" -> Times(n, <<"ALL_OF", "Id">>)
    [] shape = "wide" -> <<"SMOOSH">> \o Times(n, <<"Lit", "AN">>) \o <<"Id", "MKAY">>
    [] shape = "mixed" -> Times(n, <<"SUM_OF", "NOT", "SMOOSH", "Lit">>) \o Times(n, <<"MKAY", "AN", "Id">>)
    [] shape = "slots" -> <<"Id">> \o Times(n, <<"Slot", "Id">>)
    [] shape = "srs" -> <<"SRS", "Id">> \o Times(n, <<"Slot", "SRS", "Id">>) \o <<"R", "Lit">>
    [] shape = "args" -> <<"I_IZ", "Id", "YR", "Lit">> \o Times(n, <<"AN", "YR", "Id">>) \o <<"MKAY">>
    [] shape = "params" -> <<"HOW_IZ_I", "Id", "YR", "Id">> \o Times(n, <<"AN", "YR", "Id">>) \o <<"NL", "IF_U_SAY_SO">>
    [] shape = "print" -> <<"VISIBLE">> \o Times(n, <<"Lit", "Id">>) \o <<"Bang", "NL", "GTFO">>
    [] shape = "version" -> <<"HAI">> \o Times(n, <<"Lit">>) \o <<"NL", "GTFO">>
    [] shape = "then" -> Times(n, <<"O_RLY", "Qm", "NL", "YA_RLY", "NL">>) \o <<"GTFO", "NL">> \o Times(n, <<"OIC", "NL">>)
    [] shape = "else" -> Times(n, <<"O_RLY", "Qm", "NL", "NO_WAI", "NL", "Id", "NL">>) \o Times(n, <<"OIC", "NL", "Lit", "NL">>)
    [] shape = "mebbes" -> <<"O_RLY", "Qm", "NL">> \o Times(n, <<"MEBBE", "Id", "NL", "GTFO", "NL">>) \o <<"OIC", "NL", "Id">>
    [] shape = "cases" -> <<"WTF", "Qm", "NL">> \o Times(n, <<"OMG", "Lit", "NL">>) \o <<"OMGWTF", "NL", "GTFO", "NL", "OIC", "NL", "Id">>
    [] shape = "switches" -> Times(n, <<"WTF", "Qm", "NL", "OMG", "Lit", "NL">>) \o <<"Id", "NL">> \o Times(n, <<"OIC", "NL">>)
    [] shape = "loops" -> Times(n, <<"IM_IN_YR", "Id", "NL">>) \o <<"GTFO", "NL">> \o Times(n, <<"IM_OUTTA_YR", "Id", "NL">>)
    [] shape = "loopheads" -> Times(n, <<"IM_IN_YR", "Id", "UPPIN", "YR", "Id", "TIL", "Lit", "Comma">>)
                              \o Times(n, <<"IM_OUTTA_YR", "Id", "Comma">>)
    [] shape = "funcs" -> Times(n, <<"HOW_IZ_I", "Id", "YR", "Id", "NL", "Id", "NL">>) \o Times(n, <<"IF_U_SAY_SO", "NL", "Lit", "NL">>)
    [] shape = "nest" -> Times(n, <<"HOW_IZ_I", "Id", "NL", "IM_IN_YR", "Id", "NL", "WTF", "Qm", "NL", "OMG", "Lit", "NL",
                                    "O_RLY", "Qm", "NL", "MEBBE", "Id", "NL">>) \o <<"GTFO", "NL">>
                         \o Times(n, <<"NO_WAI", "NL", "OIC", "NL", "OMGWTF", "NL", "OIC", "NL", "IM_OUTTA_YR", "Id", "NL",
                                       "IF_U_SAY_SO", "NL">>)
    [] shape = "unclosed" -> Times(n, <<"O_RLY", "Qm", "NL", "YA_RLY", "NL", "GTFO", "NL">>)
    [] shape = "unclosedloops" -> Times(n, <<"IM_IN_YR", "Id", "NL", "Id", "Id", "NL">>)
    [] shape = "closers" -> Times(n, <<"OIC", "NL", "IM_OUTTA_YR", "Id", "NL">>)
    [] shape = "lines" -> Times(n, <<"GTFO", "NL">>)
    [] shape = "commas" -> Times(n, <<"Id", "Comma">>)
    [] shape = "onecommas" -> <<"Id">> \o Times(n, <<"Comma">>) \o <<"Id">>
    [] shape = "blanks" -> Times(n, <<"NL">>) \o <<"GTFO">> \o Times(n, <<"NL">>) \o <<"Id">>
    [] shape = "dots" -> <<"I_HAS_A">> \o Times(n, <<"Ell", "NL">>) \o <<"Id">>
    [] shape = "joined" -> <<"SMOOSH">> \o Times(n, <<"Lit", "Ell", "NL">>) \o <<"MKAY", "NL", "GTFO">>
    [] shape = "joins" -> <<"I_HAS_A">> \o Times(n, <<"Ell">>) \o <<"Id", "NL">> \o Times(n, <<"Ell">>) \o <<"GTFO">>
    [] shape = "notes" -> Times(n, <<"CM", "NL", "CS", "NL">>) \o <<"VISIBLE">> \o Times(n, <<"CM">>) \o <<"Lit">>
    [] shape = "errors" -> Times(n, <<"IM_IN_YR", "Id", "NL", "Id", "Id", "NL">>)
                           \o Times(n, <<"I_HAS_A", "NL", "IM_OUTTA_YR", "Id", "NL">>) \o <<"GTFO", "Id">>
    [] shape = "extra" -> <<"GTFO">> \o Times(n, <<"Lit">>) \o <<"NL", "Id">>
    [] shape = "after" -> Times(n, <<"I_HAS_A", "Lit", "NL", "GTFO", "NL">>)
    [] shape = "chain" -> Times(n, <<"Lit", "Comma", "O_RLY", "Qm", "Comma", "YA_RLY", "Comma", "GTFO", "Comma", "OIC", "NL">>)
    [] shape = "endlabels" -> Times(n, <<"IM_IN_YR", "Id", "NL">>) \o Times(n, <<"IM_OUTTA_YR", "NL">>)
    [] shape = "sections" -> <<"O_RLY", "Qm", "NL">> \o Times(n, <<"YA_RLY", "NL", "Id", "NL">>) \o <<"OIC">>
    [] shape = "multi" -> <<"VISIBLE">> \o Times(n, <<"ML">>) \o <<"NL">> \o Times(n, <<"ML", "CM2", "NL">>) \o <<"Id">>

\* C06 speaks of up to 200 levels; what only gets wider has no limit.
Flat == {"wide", "slots", "srs", "args", "params", "print", "version", "mebbes", "cases", "closers", "lines", "commas", "onecommas",
         "blanks", "dots", "joined", "joins", "notes", "extra", "after", "chain", "sections", "multi"}
Levels(shape) == CASE shape = "nest" -> 4 [] shape = "mixed" -> 3 [] shape = "both" -> 2 [] OTHER -> 1
Least(a, b) == IF a < b THEN a ELSE b

Init == \E shape \in Shapes, n \in Sizes :
           /\ prog = Program(shape, IF shape \in Flat THEN n ELSE Least(n, 200 \div Levels(shape)))
           /\ phase = "type" /\ Reset
Next == (phase = "type" /\ Load) \/ ParseNext
Spec == Init /\ [][Next]_pvars

WellBracketed == phase = "done" => Bracketed
Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
