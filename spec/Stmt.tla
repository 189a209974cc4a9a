-------------------------------- MODULE Stmt --------------------------------
(***************************************************************************)
(* The parser inside one statement.  A statement is a record               *)
(* [k |-> kinds, o |-> token numbers].  Every operator reads from offset j *)
(* and returns [ok, n, e]: whether it succeeded, the offset it stopped at, *)
(* and events: the tree it built, or the error it reports.                 *)
(*                                                                         *)
(* Trees are written as sequences of strings: "(name" opens a node, ")"    *)
(* closes it, "#n" is the n-th token of the program.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

K(s, j) == IF j <= Len(s.k) THEN s.k[j] ELSE "END"
T(s, j) == "#" \o ToString(s.o[j])
Ts(s, a, b) == [i \in 1..(b - a) |-> T(s, a + i - 1)]     \* tokens a..b-1

Done(n, e) == [ok |-> TRUE, n |-> n, e |-> e]
Fail(n, e) == [ok |-> FALSE, n |-> n, e |-> e]
Leaf(name, t) == <<"(" \o name, t, ")">>
Leaf2(outer, name, t) == <<"(" \o outer, "(" \o name, t, ")", ")">>
Wrap(name, e) == <<"(" \o name>> \o e \o <<")">>

Unexpected(s, j) == Fail(j + 1, Leaf("unexpectedtoken", T(s, j)))
\* Something is missing at offset n, after token j.
Missing(s, j, n) == Fail(n, Leaf("missingtoken", T(s, j)))

BinaryName == [EITHER_OF |-> "eitherof", WON_OF |-> "wonof", SUM_OF |-> "sumof", DIFF_OF |-> "diffof",
               PRODUKT_OF |-> "produktof", QUOSHUNT_OF |-> "quoshuntof", MOD_OF |-> "modof",
               BIGGR_OF |-> "biggrof", SMALLR_OF |-> "smallrof", BOTH_SAEM |-> "bothsaem",
               BOTH_OF |-> "bothof", DIFFRINT |-> "diffrint"]
NaryName == [ALL_OF |-> "allof", ANY_OF |-> "anyof", SMOOSH |-> "smoosh"]
TypeName == [NUMBR |-> "numbr", NUMBAR |-> "numbar", YARN |-> "yarn", TROOF |-> "troof",
             BUKKIT |-> "bukkit", NOOB |-> "noob"]
BinaryKinds == DOMAIN BinaryName
NaryKinds == DOMAIN NaryName
TypeKinds == DOMAIN TypeName

-----------------------------------------------------------------------------
(* Names, variables, expressions.                                          *)

\* At offset j there is a token.
Ident(s, j) ==
    CASE K(s, j) = "Id" -> Done(j + 1, <<T(s, j)>>)
      [] K(s, j) = "SRS" ->
            IF K(s, j + 1) = "END" THEN Missing(s, j, j + 1)
            ELSE IF K(s, j + 1) = "Id" THEN Done(j + 2, Ts(s, j, j + 2))
            ELSE Unexpected(s, j + 1)
      [] OTHER -> Unexpected(s, j)

RECURSIVE Slots(_, _, _)
Slots(s, j, acc) ==
    IF K(s, j) # "Slot" THEN Done(j, Wrap("variableaccess", acc))
    ELSE IF K(s, j + 1) = "END" THEN Missing(s, j, j + 1)
    ELSE LET r == Ident(s, j + 1)
         IN IF ~r.ok THEN r ELSE Slots(s, r.n, acc \o <<T(s, j)>> \o r.e)

Var(s, j) == LET r == Ident(s, j) IN IF ~r.ok THEN r ELSE Slots(s, r.n, r.e)

MissingOperands(s, j, n) == Fail(n, Leaf("missingoperands", T(s, j)))

RECURSIVE Expr(_, _), Operands(_, _, _)
Expr(s, j) ==
    CASE K(s, j) \in {"Id", "SRS"} -> Var(s, j)
      [] K(s, j) \in {"Lit", "NOOB"} -> Done(j + 1, Leaf("literalvalue", T(s, j)))
      [] K(s, j) = "NOT" ->
            IF K(s, j + 1) = "END" THEN MissingOperands(s, j, j + 1)
            ELSE LET r == Expr(s, j + 1)
                 IN IF ~r.ok THEN r
                    ELSE Done(r.n, Wrap("unaryoperation", Leaf("not", T(s, j)) \o r.e))
      [] K(s, j) \in BinaryKinds ->
            IF K(s, j + 1) = "END" THEN MissingOperands(s, j, j + 1)
            ELSE LET l == Expr(s, j + 1) IN
                 IF ~l.ok THEN l
                 ELSE LET m == IF K(s, l.n) = "AN" THEN l.n + 1 ELSE l.n IN
                      IF K(s, m) = "END" THEN MissingOperands(s, j, m)
                      ELSE LET r == Expr(s, m) IN
                           IF ~r.ok THEN r
                           ELSE Done(r.n, Wrap("binaryoperation",
                                  Leaf(BinaryName[K(s, j)], T(s, j)) \o l.e \o Ts(s, l.n, m) \o r.e))
      [] K(s, j) \in NaryKinds ->
            LET r == Operands(s, j + 1, Leaf(NaryName[K(s, j)], T(s, j)))
            IN IF ~r.ok THEN r ELSE Done(r.n, Wrap("naryoperation", r.e))
      [] OTHER -> Unexpected(s, j)

\* Operands up to MKAY or the end, each optionally followed by AN.
Operands(s, j, acc) ==
    CASE K(s, j) = "END" -> Done(j, acc)
      [] K(s, j) = "MKAY" -> Done(j + 1, acc \o <<T(s, j)>>)
      [] OTHER ->
            LET r == Expr(s, j) IN
            IF ~r.ok THEN r
            ELSE IF K(s, r.n) = "AN" THEN Operands(s, r.n + 1, acc \o r.e \o <<T(s, r.n)>>)
            ELSE Operands(s, r.n, acc \o r.e)

-----------------------------------------------------------------------------
(* Statements.  The first token is at offset 1.                            *)

\* node [name first-token e...]
Node(s, name, e) == Wrap(name, <<T(s, 1)>> \o e)

Declaration(s) ==       \* I HAS A name [ITZ type-or-expression]
    IF K(s, 2) = "END" THEN Fail(2, Leaf2("ihasa", "missingidentifier", T(s, 1)))
    ELSE IF K(s, 2) \notin {"Id", "SRS"} THEN Fail(3, Leaf2("ihasa", "invalididentifier", T(s, 2)))
    ELSE LET i == Ident(s, 2) IN
      IF ~i.ok THEN i
      ELSE IF K(s, i.n) = "END" THEN Done(i.n, Node(s, "ihasa", i.e))
      ELSE IF K(s, i.n) # "ITZ" THEN Unexpected(s, i.n)
      ELSE IF K(s, i.n + 1) = "END"
           THEN Fail(i.n + 1, Leaf2("ihasa", "expectedinitialvalue", T(s, i.n)))
      ELSE IF K(s, i.n + 1) \in TypeKinds
           THEN Done(i.n + 2, Node(s, "ihasa", i.e \o Leaf(TypeName[K(s, i.n + 1)], T(s, i.n + 1))))
      ELSE LET v == Expr(s, i.n + 1) IN
           IF ~v.ok THEN v ELSE Done(v.n, Node(s, "ihasa", i.e \o v.e))

SlotDeclaration(s, v) ==    \* variable HAS A slot ITZ expression; v is the variable
    LET h == v.n IN
    IF K(s, h + 1) = "END" THEN Fail(h + 1, Leaf2("variableassignment", "expectedvalue", T(s, h)))
    ELSE LET i == Ident(s, h + 1) IN
      IF ~i.ok THEN i
      ELSE IF K(s, i.n) = "END" THEN Missing(s, i.n - 1, i.n)
      ELSE IF K(s, i.n) # "ITZ" THEN Unexpected(s, i.n)
      ELSE IF K(s, i.n + 1) = "END" THEN Missing(s, i.n, i.n + 1)
      ELSE LET x == Expr(s, i.n + 1) IN
           IF ~x.ok THEN x
           ELSE Done(x.n, Wrap("bukkitsetslot", v.e \o i.e \o x.e))

Assignment(s, v) ==     \* variable R expression
    IF K(s, v.n) # "R" THEN Fail(v.n + 1, Leaf2("variableassignment", "missingr", T(s, v.n - 1)))
    ELSE IF K(s, v.n + 1) = "END"
         THEN Fail(v.n + 1, Leaf2("variableassignment", "expectedvalue", T(s, v.n)))
    ELSE LET x == Expr(s, v.n + 1) IN
         IF ~x.ok THEN x
         ELSE Done(x.n, Wrap("variableassignment", v.e \o <<T(s, v.n)>> \o x.e))

FromVariable(s) ==
    LET v == Var(s, 1) IN
    IF ~v.ok THEN v
    ELSE IF K(s, v.n) = "END" THEN v
    ELSE IF K(s, v.n) = "HAS_A" THEN SlotDeclaration(s, v)
    ELSE Assignment(s, v)

RECURSIVE Printed(_, _, _)
Printed(s, j, acc) ==
    CASE K(s, j) = "END" -> Done(j, Node(s, "visible", acc))
      [] K(s, j) = "Bang" -> Done(j + 1, Node(s, "visible", acc \o <<T(s, j)>>))
      [] OTHER -> LET r == Expr(s, j) IN
                  IF ~r.ok THEN r ELSE Printed(s, r.n, acc \o r.e)

Input(s) ==
    IF K(s, 2) = "END" THEN Missing(s, 1, 2)
    ELSE LET v == Var(s, 2) IN IF ~v.ok THEN v ELSE Done(v.n, Node(s, "gimmeh", v.e))

Return(s) ==
    IF K(s, 2) = "END" THEN Missing(s, 1, 2)
    ELSE LET x == Expr(s, 2) IN IF ~x.ok THEN x ELSE Done(x.n, Node(s, "foundyr", x.e))

CallEnd(s, j, acc) ==
    CASE K(s, j) = "END" -> Fail(j, Leaf2("iiz", "missingmkay", T(s, 1)))
      [] K(s, j) = "MKAY" -> Done(j + 1, Node(s, "iiz", acc))
      [] OTHER -> Fail(j + 1, Leaf2("iiz", "missingmkay", T(s, j)))

RECURSIVE CallArgs(_, _, _)
CallArgs(s, j, acc) ==
    IF K(s, j) # "YR" THEN CallEnd(s, j, acc)
    ELSE IF K(s, j + 1) = "END" THEN Fail(j + 1, Leaf2("iiz", "missingargument", T(s, j)))
    ELSE IF K(s, j + 1) = "MKAY" THEN Fail(j + 2, Leaf2("iiz", "missingargument", T(s, j)))
    ELSE LET r == Expr(s, j + 1) IN
         IF ~r.ok THEN r
         ELSE IF K(s, r.n) = "AN" THEN CallArgs(s, r.n + 1, acc \o r.e)
         ELSE CallEnd(s, r.n, acc \o r.e)

Call(s) ==
    IF K(s, 2) = "END" THEN Fail(2, Leaf2("iiz", "missingname", T(s, 1)))
    ELSE IF K(s, 2) = "MKAY" THEN Fail(3, Leaf2("iiz", "missingname", T(s, 1)))
    ELSE LET v == Var(s, 2) IN IF ~v.ok THEN v ELSE CallArgs(s, v.n, v.e)

SimpleStatement(s) ==
    CASE K(s, 1) \in {"Id", "SRS"} -> FromVariable(s)
      [] K(s, 1) = "I_HAS_A" -> Declaration(s)
      [] K(s, 1) = "VISIBLE" -> Printed(s, 2, << >>)
      [] K(s, 1) = "GIMMEH" -> Input(s)
      [] K(s, 1) = "FOUND_YR" -> Return(s)
      [] K(s, 1) = "HAI" -> Done(Len(s.k) + 1, Node(s, "hai", Ts(s, 2, Len(s.k) + 1)))
      [] K(s, 1) = "KTHXBYE" -> Done(2, Node(s, "kthxbye", << >>))
      [] K(s, 1) = "GTFO" -> Done(2, Node(s, "gtfo", << >>))
      [] K(s, 1) = "I_IZ" -> Call(s)
      [] OTHER -> Expr(s, 1)

-----------------------------------------------------------------------------
(* Block headers: what follows the opening word on its line.               *)

RECURSIVE Params(_, _, _)
Params(s, j, acc) ==
    IF K(s, j) # "YR" THEN Done(j, acc)
    ELSE IF K(s, j + 1) = "END" THEN Missing(s, j, j + 1)
    ELSE LET r == Ident(s, j + 1) IN
         IF ~r.ok THEN r
         ELSE IF K(s, r.n) = "AN" THEN Params(s, r.n + 1, acc \o r.e)
         ELSE Done(r.n, acc \o r.e)

FuncHeader(s) ==
    IF K(s, 2) = "END" THEN Fail(2, Leaf2("howisi", "missingnameidentifier", T(s, 1)))
    ELSE LET i == Ident(s, 2) IN
         IF ~i.ok THEN i
         ELSE LET p == Params(s, i.n, << >>) IN
              IF ~p.ok THEN p ELSE Done(p.n, <<T(s, 1)>> \o i.e \o p.e)

LoopError(n, name, t) == Fail(n, Leaf2("iminyr", name, t))
LoopWord == [UPPIN |-> "uppin", NERFIN |-> "nerfin", TIL |-> "til", WILE |-> "wile"]

LoopOperation(s, j) ==
    CASE K(s, j) \in {"UPPIN", "NERFIN"} ->
           IF K(s, j + 1) = "END" THEN LoopError(j + 1, "missingoperand", T(s, j))
           ELSE IF K(s, j + 1) # "YR" THEN LoopError(j + 2, "missingyr", T(s, j + 1))
           ELSE IF K(s, j + 2) = "END" THEN LoopError(j + 2, "missingoperand", T(s, j))
           ELSE LET v == Var(s, j + 2) IN
                IF ~v.ok THEN v ELSE Done(v.n, Leaf(LoopWord[K(s, j)], T(s, j)) \o v.e)
      [] K(s, j) \in {"TIL", "WILE", "END"} -> Done(j, << >>)
      [] OTHER -> LoopError(j + 1, "invalidoperation", T(s, j))

LoopCondition(s, j) ==
    CASE K(s, j) \in {"TIL", "WILE"} ->
           IF K(s, j + 1) = "END" THEN LoopError(j + 1, "missingconditionalexpression", T(s, j))
           ELSE LET x == Expr(s, j + 1) IN
                IF ~x.ok THEN x ELSE Done(x.n, Wrap(LoopWord[K(s, j)], x.e))
      [] K(s, j) = "END" -> Done(j, << >>)
      [] OTHER -> LoopError(j + 1, "invalidconditional", T(s, j))

LoopHeader(s) ==
    IF K(s, 2) = "END" THEN LoopError(2, "missingstartlabel", T(s, 1))
    ELSE IF K(s, 2) # "Id" THEN LoopError(3, "invalidstartlabel", T(s, 2))
    ELSE LET o == LoopOperation(s, 3) IN
         IF ~o.ok THEN o
         ELSE LET c == LoopCondition(s, o.n) IN
              IF ~c.ok THEN c ELSE Done(c.n, Ts(s, 1, 3) \o o.e \o c.e)

\* O RLY? and WTF?
AskHeader(s) ==
    CASE K(s, 2) \in {"Qm", "SymQ"} -> Done(3, <<T(s, 1)>>)
      [] K(s, 2) = "END" -> Fail(2, Leaf2("orly", "missingquestionmark", T(s, 1)))
      [] OTHER -> Fail(3, Leaf2("orly", "missingquestionmark", T(s, 1)))

Header(s) ==
    CASE K(s, 1) = "HOW_IZ_I" -> FuncHeader(s)
      [] K(s, 1) = "IM_IN_YR" -> LoopHeader(s)
      [] OTHER -> AskHeader(s)

\* Section openers: YA RLY, NO WAI, OMGWTF alone; MEBBE and OMG with an expression.
SectionHead(s) ==
    CASE K(s, 1) \in {"YA_RLY", "NO_WAI", "OMGWTF"} -> Done(2, <<T(s, 1)>>)
      [] K(s, 2) = "END" ->
            IF K(s, 1) = "MEBBE" THEN Fail(2, Leaf2("orly", "missingmebbeexpression", T(s, 1)))
            ELSE Missing(s, 1, 2)
      [] OTHER -> LET x == Expr(s, 2) IN
                  IF ~x.ok THEN x ELSE Done(x.n, <<T(s, 1)>> \o x.e)

\* Left-over tokens from offset n on.
TooMany(s, n) == Wrap("toomanytokens", Ts(s, n, Len(s.k) + 1))
ErrorNode(e) == Wrap("asterror", e)
LeftOver(s, n) == IF n <= Len(s.k) THEN ErrorNode(TooMany(s, n)) ELSE << >>

\* The nodes a simple statement leaves in its block.
NodesOf(s) ==
    LET r == SimpleStatement(s)
    IN (IF r.ok THEN r.e ELSE ErrorNode(r.e)) \o LeftOver(s, r.n)
=============================================================================
