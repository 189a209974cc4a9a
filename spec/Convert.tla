------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* What a token can be turned into and back.  A token may be read as a     *)
(* type or as a literal value, wrapped into an operator or a type, made    *)
(* the content of an error or an expression of a node of its own, looked   *)
(* at and taken out again.  TLC explores all histories of such conversions *)
(* of one token up to a length; in each of them the token stays what it    *)
(* was, and each reading succeeds exactly for the tokens it is meant for.  *)
(***************************************************************************)
EXTENDS Keywords, TLC, Json

CONSTANTS MaxSteps

VARIABLES tok,     \* the token: a keyword's name or another kind
          held,    \* what it is in: <<"token">>, <<"type", t>>, <<"operator", name>>, <<"value">>, <<"node", what>>, <<"gone">>
          hist     \* <<step, argument, answer>>
vars == <<tok, held, hist>>

Kinds == {KwNames[k] : k \in 1..NKw} \cup
         {"Id", "Int", "Float", "String", "Bool", "Null", "Sym", "CS", "CM", "Slot", "Ell", "Comma", "Bang", "Qm"}
Types == {"BUKKIT", "NUMBR", "NUMBAR", "YARN", "TROOF", "NOOB"}
Values == {"Int", "Float", "String", "Bool", "Null"}
Operators == {"SUM_OF", "DIFF_OF", "PRODUKT_OF", "QUOSHUNT_OF", "MOD_OF", "BIGGR_OF", "SMALLR_OF", "BOTH_SAEM", "DIFFRINT",
              "BOTH_OF", "EITHER_OF", "WON_OF", "NOT", "ALL_OF", "ANY_OF", "SMOOSH"}
\* Errors that can be made from a token.
Errors == {"MissingR", "ExpectedValue", "MissingOperands", "MissingNameIdentifier", "MissingYr", "MissingStartLabel", "InvalidStartLabel",
           "MissingEndLabel", "InvalidEndLabel", "MissingImOuttaYr", "InvalidOperation", "MissingOperand", "InvalidConditional",
           "MissingConditionalExpression", "MissingName", "MissingArgument", "MissingMkay", "MissingQuestionMark", "MissingMebbeExpression",
           "InvalidIdentifier", "MissingIdentifier", "ExpectedInitialValue"}

Init == tok \in Kinds /\ held = <<"token">> /\ hist = << >>
Step(what, arg, answer) == Len(hist) < MaxSteps /\ hist' = Append(hist, <<what, arg, answer>>) /\ UNCHANGED tok
Is(x) == held[1] = x
Yes == "yes" No == "no"

AsType == /\ Is("token") /\ Step("astype", "", IF tok \in Types THEN tok ELSE No)
          /\ held' = IF tok \in Types THEN <<"type", tok>> ELSE held
AsValue == /\ Is("token") /\ Step("asvalue", "", IF tok \in Values THEN Yes ELSE No)
           /\ held' = IF tok \in Values THEN <<"value">> ELSE <<"gone">>
\* Wrapped by hand: whatever the token is.
MakeType == Is("token") /\ \E t \in Types : Step("type", t, Yes) /\ held' = <<"type", t>>
MakeOperator == Is("token") /\ \E o \in Operators : Step("operator", o, Yes) /\ held' = <<"operator", o>>
MakeError == Is("token") /\ \E x \in Errors : Step("error", x, Yes) /\ held' = <<"node", x>>
MakeNode == Is("value") /\ Step("node", "", Yes) /\ held' = <<"node", "Expression">>
Copy == ~Is("gone") /\ Step("copy", "", held[1]) /\ UNCHANGED held
Look == (Is("type") \/ Is("operator") \/ Is("token")) /\ Step("look", "", tok) /\ UNCHANGED held
Tokens == (Is("value") \/ held = <<"node", "Expression">>) /\ Step("tokens", "", tok) /\ UNCHANGED held
TakeOut == (Is("type") \/ Is("operator")) /\ Step("takeout", "", tok) /\ held' = <<"token">>
Spelled == Is("token") /\ tok \in {KwNames[k] : k \in 1..NKw} /\ Step("spelled", "", tok) /\ UNCHANGED held

Next == AsType \/ AsValue \/ MakeType \/ MakeOperator \/ MakeError \/ MakeNode \/ Copy \/ Look \/ Tokens \/ TakeOut \/ Spelled
Spec == Init /\ [][Next]_vars

\* Nothing that is not a type is ever read as one, and what is read gives the token back.
Faithful == \A i \in 1..Len(hist) : /\ (hist[i][1] = "astype" /\ hist[i][3] # No) => hist[i][3] = tok
                                    /\ hist[i][1] \in {"look", "takeout", "tokens"} => hist[i][3] = tok
Emit == (Len(hist) = MaxSteps \/ (hist # << >> /\ Is("gone"))) =>
    PrintT(ToJson(<<tok, IF tok \in {KwNames[k] : k \in 1..NKw} THEN KwCps[KwIndex(tok)] ELSE << >>, hist>>))
=============================================================================
