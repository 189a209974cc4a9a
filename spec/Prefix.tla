------------------------------- MODULE Prefix --------------------------------
(***************************************************************************)
(* Where a statement goes wrong.  A beginning of a statement is viable if  *)
(* something can be put behind it that makes it grammatical, which is said *)
(* with Sentence, not with the parser.  TLC types every short statement,   *)
(* head of a construct and head of a section, and checks that the parser   *)
(* stops exactly at the first token that makes the beginning unviable, or  *)
(* at the end if the statement is viable but not complete, and that it     *)
(* takes what is left over behind a complete statement as left over.       *)
(***************************************************************************)
EXTENDS Sentence

CONSTANTS MaxLetters

VARIABLES stmt      \* kinds

Always == {"Id", "Lit", "SRS", "Slot", "AN", "MKAY", "NOT", "SUM_OF", "SMOOSH"}
\* What a statement may begin with, and the words that have a meaning in it.
Words == [I_HAS_A |-> {"ITZ", "YARN"}, VISIBLE |-> {"Bang"}, GIMMEH |-> {"R"}, FOUND_YR |-> {"YR"}, GTFO |-> {"GTFO"},
          I_IZ |-> {"YR"}, Id |-> {"R", "HAS_A", "ITZ"}, SRS |-> {"R", "HAS_A"}, IM_IN_YR |-> {"UPPIN", "YR", "TIL"},
          HOW_IZ_I |-> {"YR"}, O_RLY |-> {"Qm"}, WTF |-> {"Qm"}, MEBBE |-> {"YR"}, OMG |-> {"Comma"}, NO_WAI |-> {"NO_WAI"},
          SUM_OF |-> {"R"}, SMOOSH |-> {"Bang"}, NOT |-> {"ITZ"}, Lit |-> {"R"}]

s0 == [k |-> stmt, o |-> [i \in 1..Len(stmt) |-> i]]
Sections == {"YA_RLY", "MEBBE", "NO_WAI", "OMG", "OMGWTF"}
Read == CASE stmt[1] \in OpenerKinds -> Header(s0)
          [] stmt[1] \in Sections -> SectionHead(s0)
          [] OTHER -> SimpleStatement(s0)

\* A sequence of kinds is a whole statement or head.
IsWhole(s) ==
    /\ s # << >>
    /\ CASE s[1] = "HOW_IZ_I" -> IsFuncHead(Tail(s))
         [] s[1] = "IM_IN_YR" -> IsLoopHead(Tail(s))
         [] s[1] \in {"O_RLY", "WTF"} -> IsAsk(s, s[1])
         [] s[1] \in {"MEBBE", "OMG"} -> Len(s) > 1 /\ IsValue(Tail(s))
         [] s[1] \in Sections -> Len(s) = 1
         [] OTHER -> IsStatement(s)

\* Enough to complete any beginning that can be completed: as many names and closing words as operators are open.
Openers(s) == Cardinality({i \in 1..Len(s) : s[i] \in BinaryKinds \cup NaryKinds})
Ends(n) == UNION {[1..m -> {"Id", "MKAY"}] : m \in 0..n}
Middles(k) == {<< >>} \cup (CASE k = "Id" -> {<<"ITZ">>, <<"Id", "ITZ">>} [] k = "SRS" -> {<<"Id", "ITZ">>, <<"ITZ">>}
                           [] k = "IM_IN_YR" -> {<<"YR">>} [] k \in {"O_RLY", "WTF"} -> {<<"Qm">>} [] OTHER -> {})
Viable(s) == \/ s = << >>
             \/ IsWhole(s)
             \/ \E m \in Middles(s[1]) : \E z \in Ends(2 + Openers(s)) : IsWhole(s \o m \o z)

Init == /\ \E k \in DOMAIN Words : stmt = <<k>>
        /\ prog = << >> /\ segs = << >> /\ g = 1 /\ frames = << >> /\ out = << >> /\ phase = "type"
Type == /\ Len(stmt) <= MaxLetters
        /\ \E k \in Always \cup Words[stmt[1]] : stmt' = Append(stmt, k)
        /\ UNCHANGED pvars
Spec == Init /\ [][Type]_<<pvars, stmt>>

\* Whole statements are read whole.
Whole == IsWhole(stmt) <=> (Read.ok /\ Read.n = Len(stmt) + 1)
\* Something is left over only behind a complete statement, and could not have been part of it.
Over == (Read.ok /\ Read.n <= Len(stmt)) => IsWhole(Fore(stmt, Read.n - 1)) /\ ~Viable(Fore(stmt, Read.n))
\* An error: the token last read is the first that does not fit, or there is none that does not fit but some are missing.
AtTheToken == ~Read.ok =>
    \/ /\ Viable(Fore(stmt, Read.n - 2)) /\ ~Viable(Fore(stmt, Read.n - 1))
    \/ Read.n = Len(stmt) + 1 /\ Viable(stmt) /\ ~IsWhole(stmt)
=============================================================================
