------------------------------ MODULE Keywords ------------------------------
(***************************************************************************)
(* The keyword table: the published name of every keyword and its spelling *)
(* in the source (the words of the phrase separated by single spaces).     *)
(***************************************************************************)
EXTENDS Text, FiniteSets

KwNames == <<"BTW", "HAS_A", "OBTW", "SRS", "TLDR", "BUKKIT", "HAI", "KTHXBYE",
  "I_HAS_A", "ITZ", "NOOB", "TROOF", "FAIL", "WIN", "NUMBR", "NUMBAR", "YARN",
  "MKAY", "AN", "SUM_OF", "DIFF_OF", "PRODUKT_OF", "QUOSHUNT_OF", "MOD_OF",
  "BIGGR_OF", "SMALLR_OF", "BOTH_SAEM", "BOTH_OF", "EITHER_OF", "WON_OF", "NOT",
  "UPPIN", "NERFIN", "ALL_OF", "ANY_OF", "DIFFRINT", "SMOOSH", "MAEK", "IS_NOW",
  "VISIBLE", "GIMMEH", "O_RLY", "YA_RLY", "NO_WAI", "OIC", "MEBBE", "WTF",
  "OMGWTF", "OMG", "GTFO", "IM_IN_YR", "YR", "TIL", "WILE", "IM_OUTTA_YR",
  "HOW_IZ_I", "IF_U_SAY_SO", "FOUND_YR", "I_IZ", "R", "A">>

NKw == Len(KwNames)

Underscores(cps) == [k \in 1..Len(cps) |-> IF cps[k] = UNDER THEN SP ELSE cps[k]]

KwCps == [k \in 1..NKw |-> Underscores(Cps(KwNames[k]))]

KwIndex(name) == CHOOSE k \in 1..NKw : KwNames[k] = name

\* Keywords the lexer turns into something other than a keyword token.
CommentWords == {"BTW", "OBTW"}
LiteralWords == {"NOOB", "FAIL", "WIN"}

(***************************************************************************)
(* At any place at most one phrase can end at a word boundary, except that *)
(* one phrase may be a prefix of another one at a space; no pair of the    *)
(* table is like that, so "the keyword at i" is well defined.              *)
(***************************************************************************)
ASSUME \A j, k \in 1..NKw : j # k =>
          ~(/\ Len(KwCps[j]) <= Len(KwCps[k])
            /\ WholeWord(KwCps[k], 1, KwCps[j]))

\* Indices by first letter: keeps the search for a keyword cheap.
KwByFirst == [c \in 65..90 |-> {k \in 1..NKw : KwCps[k][1] = c}]

KwAt(src, i) ==
    IF src[i] < 65 \/ src[i] > 90 THEN {}
    ELSE {k \in KwByFirst[src[i]] : WholeWord(src, i, KwCps[k])}
=============================================================================
