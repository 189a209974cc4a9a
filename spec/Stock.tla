------------------------------- MODULE Stock --------------------------------
(***************************************************************************)
(* Small programs, every kind of node and of error among them.             *)
(***************************************************************************)
StockPrograms == <<
    <<"GTFO">>, <<"KTHXBYE">>, <<"HAI">>, <<"HAI", "Lit", "Id">>, <<"Id">>, <<"Lit">>, <<"NOOB">>, <<"SRS", "Id">>,
    <<"Id", "Slot", "Id", "Slot", "SRS", "Id">>, <<"NOT", "Id">>, <<"SUM_OF", "Lit", "AN", "Id">>, <<"BOTH_SAEM", "Id", "Lit">>,
    <<"DIFFRINT", "NOT", "Id", "AN", "Lit">>, <<"ALL_OF", "Id", "AN", "Lit", "AN", "Id", "MKAY">>, <<"SMOOSH", "Lit", "Lit">>,
    <<"ANY_OF">>, <<"ANY_OF", "MKAY">>, <<"ALL_OF", "SMOOSH", "Id", "MKAY", "AN", "Lit">>,
    <<"I_HAS_A", "Id">>, <<"I_HAS_A", "SRS", "Id", "ITZ", "Lit">>, <<"I_HAS_A", "Id", "ITZ", "YARN">>, <<"I_HAS_A", "Id", "ITZ", "NOOB">>,
    <<"Id", "R", "Lit">>, <<"Id", "Slot", "Id", "R", "SUM_OF", "Id", "Lit">>, <<"Id", "HAS_A", "Id", "ITZ", "Lit">>,
    <<"GIMMEH", "Id", "Slot", "Id">>, <<"VISIBLE", "Lit", "Id">>, <<"VISIBLE", "Lit", "Bang">>, <<"VISIBLE">>,
    <<"FOUND_YR", "Lit">>, <<"I_IZ", "Id", "MKAY">>, <<"I_IZ", "Id", "YR", "Lit", "AN", "YR", "Id", "MKAY">>,
    <<"HOW_IZ_I", "Id", "YR", "Id", "AN", "YR", "SRS", "Id", "NL", "GTFO", "NL", "IF_U_SAY_SO">>,
    <<"HOW_IZ_I", "SRS", "Id", "NL", "IF_U_SAY_SO", "NL", "Id">>,
    <<"IM_IN_YR", "Id", "UPPIN", "YR", "Id", "TIL", "NOT", "Id", "NL", "Id", "NL", "IM_OUTTA_YR", "Id">>,
    <<"IM_IN_YR", "Id", "NERFIN", "YR", "Id", "Slot", "Id", "NL", "IM_OUTTA_YR", "Id">>, <<"IM_IN_YR", "Id", "WILE", "Lit", "Comma", "IM_OUTTA_YR", "Id">>,
    <<"O_RLY", "Qm", "NL", "YA_RLY", "NL", "Id", "NL", "MEBBE", "Lit", "NL", "GTFO", "NL", "MEBBE", "Id", "NL", "NO_WAI", "NL", "Lit", "NL", "OIC">>,
    <<"O_RLY", "Qm", "Comma", "NO_WAI", "Comma", "OIC">>,
    <<"WTF", "Qm", "NL", "OMG", "Lit", "NL", "Id", "NL", "Id", "NL", "OMG", "Id", "NL", "OMGWTF", "NL", "GTFO", "NL", "OIC">>,
    <<"GTFO", "NL", "Id", "Comma", "Lit", "NL", "Id">>, <<"VISIBLE", "Ell", "NL", "Lit", "CM", "Id", "CS", "NL", "GTFO">>, <<"ML", "CM2", "ML">>,
    \* with errors
    <<"I_HAS_A">>, <<"I_HAS_A", "Lit">>, <<"Id", "R">>, <<"Id", "Id">>, <<"GTFO", "Lit", "Id">>, <<"Sym", "Qm">>, <<"SUM_OF", "Id">>,
    <<"NOT">>, <<"I_IZ">>, <<"I_IZ", "Id", "YR">>, <<"I_IZ", "Id">>, <<"HOW_IZ_I">>, <<"GIMMEH">>, <<"O_RLY">>, <<"O_RLY", "Qm", "NL", "MEBBE">>,
    <<"O_RLY", "Qm", "NL", "YA_RLY", "NL", "Id", "Id">>, <<"IM_IN_YR">>, <<"IM_IN_YR", "Lit">>, <<"IM_IN_YR", "Id", "UPPIN">>,
    <<"IM_IN_YR", "Id", "UPPIN", "Id">>, <<"IM_IN_YR", "Id", "Id">>, <<"IM_IN_YR", "Id", "TIL">>, <<"IM_IN_YR", "Id", "UPPIN", "YR", "Id", "Id">>,
    <<"IM_IN_YR", "Id", "NL", "IM_OUTTA_YR">>, <<"IM_IN_YR", "Id", "NL", "IM_OUTTA_YR", "Lit">>, <<"IM_IN_YR", "Id", "NL", "GTFO">>,
    <<"MKAY">>, <<"Id", "Slot">>, <<"Id", "HAS_A", "Id">>, <<"WTF", "Qm", "NL", "OMG", "Lit", "NL", "I_HAS_A", "NL", "OIC", "Lit">>, << >> >>

AllKinds == {"HAS_A", "SRS", "TLDR", "BUKKIT", "HAI", "KTHXBYE", "I_HAS_A", "ITZ", "NOOB", "TROOF", "FAIL", "WIN", "NUMBR", "NUMBAR", "YARN",
    "MKAY", "AN", "SUM_OF", "DIFF_OF", "PRODUKT_OF", "QUOSHUNT_OF", "MOD_OF", "BIGGR_OF", "SMALLR_OF", "BOTH_SAEM", "BOTH_OF", "EITHER_OF",
    "WON_OF", "NOT", "UPPIN", "NERFIN", "ALL_OF", "ANY_OF", "DIFFRINT", "SMOOSH", "MAEK", "IS_NOW", "VISIBLE", "GIMMEH", "O_RLY", "YA_RLY",
    "NO_WAI", "OIC", "MEBBE", "WTF", "OMGWTF", "OMG", "GTFO", "IM_IN_YR", "YR", "TIL", "WILE", "IM_OUTTA_YR", "HOW_IZ_I", "IF_U_SAY_SO",
    "FOUND_YR", "I_IZ", "R", "A", "BTW", "OBTW",
    "Id", "Lit", "ML", "Sym", "SymQ", "Slot", "Ell", "Comma", "Bang", "Qm", "CM", "CM2", "NL"}
=============================================================================
