------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* What a program is and what its tree is, said independently of the       *)
(* parser: a translation grammar.  Deriving a program writes its tokens    *)
(* and its tree at the same time.  TLC derives programs and checks that    *)
(* the parser machine, run on the tokens, builds exactly that tree.        *)
(*                                                                         *)
(* Symbols: <<"t", k>> a token that is kept in the tree, <<"q", k>> one    *)
(* that is not, <<"e", ev>> a tree event, <<"n", name>> a nonterminal,     *)
(* <<"b", name>> a malformed statement.                                    *)
(***************************************************************************)
EXTENDS Parser, Json

CONSTANTS Focus,   \* which part of the grammar is explored
          MinTok,  \* the statements of the program go on until it has this many tokens
          MaxTok,  \* programs have at most this many tokens and line breaks
          Bad,     \* whether malformed statements are derived too
          Muts     \* how many tokens of the derived program may be changed afterwards

VARIABLES todo,    \* symbols still to be derived
          want,    \* the tree written so far
          ord,     \* tokens written so far
          fresh,   \* no token of the current statement is written yet
          muts     \* changes made

gvars == <<todo, want, ord, fresh, muts>>

t(k) == <<"t", k>>
q(k) == <<"q", k>>
e(ev) == <<"e", ev>>
n(name) == <<"n", name>>
Op(name, k) == <<e("(" \o name), t(k), e(")")>>

On(foci) == Focus \in foci

-----------------------------------------------------------------------------
(* The grammar.  Focus narrows the alternatives, never the meaning.        *)

SomeBinary ==
    IF On({"expr"}) THEN {"SUM_OF", "DIFFRINT"}
    ELSE IF On({"ops", "wild", "mixed"}) THEN BinaryKinds
    ELSE {"SUM_OF"}
SomeNary == IF On({"ops", "wild", "mixed"}) THEN NaryKinds ELSE IF On({"expr"}) THEN {"ALL_OF", "SMOOSH"} ELSE {"SMOOSH"}
SomeTypes == IF On({"ops", "wild", "mixed", "stmts"}) THEN TypeKinds ELSE {"YARN"}

ExprForms ==
    IF On({"blocks", "layout", "errors", "bodies"}) THEN {"Lit", "Var0"}
    ELSE IF On({"stmts"}) THEN {"Lit", "Var", "Unary", "NaryClosed"}
    ELSE {"Lit", "Var", "Unary", "Binary", "NaryClosed"}
OpenForms == IF On({"blocks", "layout", "errors", "bodies"}) THEN {} ELSE {"NaryOpen", "UnaryOpen", "BinaryOpen"}

SimpleForms ==
    IF On({"expr", "ops"}) THEN {"ExprStmt"}
    ELSE IF On({"blocks"}) THEN {"Gtfo"}
    ELSE IF On({"bodies"}) THEN {"Gtfo", "Assign"}
    ELSE IF On({"layout", "errors"}) THEN {"Gtfo", "ExprStmt", "Decl", "Hai"}
    ELSE {"Decl", "DeclType", "DeclValue", "Assign", "SlotDecl", "Input", "Output", "OutputOpen",
          "OutputBang", "Call", "Return", "Hai", "Kthxbye", "Gtfo", "ExprStmt"}
BlockForms == IF On({"blocks", "errors", "bodies", "wild"}) THEN {"Func", "Loop", "If", "Switch"} ELSE {}

\* Malformed statements: none of them starts with a word that opens or closes a section.
BadStock == [
    b1 |-> <<"I_HAS_A">>,               b2 |-> <<"I_HAS_A", "Lit">>,
    b3 |-> <<"I_HAS_A", "Id", "Id">>,   b4 |-> <<"Id", "Id">>,
    b5 |-> <<"Id", "R">>,               b6 |-> <<"GTFO", "Lit", "Id">>,
    b7 |-> <<"VISIBLE", "SUM_OF">>,     b8 |-> <<"SUM_OF", "Id">>,
    b9 |-> <<"I_IZ", "Id", "YR", "Lit">>, b10 |-> <<"MAEK", "Id">>,
    b11 |-> <<"Id", "Slot">>,           b12 |-> <<"GIMMEH", "Lit">>,
    b13 |-> <<"MKAY">>,                 b14 |-> <<"Sym", "Sym">>,
    b15 |-> <<"Id", "HAS_A", "Id">>,    b16 |-> <<"I_HAS_A", "Id", "ITZ">>,
    b17 |-> <<"VISIBLE", "Lit", "Bang", "Bang">>, b18 |-> <<"Id", "R", "Lit", "Lit">>,
    b19 |-> <<"FOUND_YR">>,             b20 |-> <<"NOT", "AN", "Id">>,
    h1 |-> <<"IM_IN_YR">>,              h2 |-> <<"IM_IN_YR", "Lit">>,
    h3 |-> <<"IM_IN_YR", "Id", "UPPIN", "Id">>, h4 |-> <<"HOW_IZ_I">>,
    h5 |-> <<"HOW_IZ_I", "Lit">>,       h6 |-> <<"O_RLY">>,
    h7 |-> <<"WTF", "Id">>,             h8 |-> <<"O_RLY", "Qm", "Id">>,
    h9 |-> <<"HOW_IZ_I", "Id", "YR">>,  h10 |-> <<"IM_IN_YR", "Id", "TIL">>,
    h11 |-> <<"WTF", "Qm", "Lit">>,     h12 |-> <<"HOW_IZ_I", "Id", "Id", "Lit">>]
BadForms == IF Bad THEN {<<"b", b>> : b \in DOMAIN BadStock} ELSE {}

Separations ==
    IF On({"layout", "wild"})
    THEN {<<"NL">>, <<"Comma">>, <<"NL", "NL">>, <<"Comma", "NL">>, <<"NL", "Comma">>, <<"CS", "NL">>,
          <<"NL", "CM", "NL">>, <<"CM2">>, <<"NL", "Ell">>, <<"Ell", "Comma">>, <<"NL", "Ell", "NL", "Ell", "NL">>,
          <<"Comma", "Ell", "NL", "Comma">>, <<"CM", "NL">>, <<"Ell", "NL", "Comma">>, <<"Comma", "Comma">>}
    ELSE IF On({"mixed", "stmts"}) THEN {<<"NL">>, <<"Comma">>}
    ELSE {<<"NL">>}
\* What may stand before a token inside a statement without ending it.
Joins ==
    IF On({"layout", "wild"})
    THEN {<< >>, <<"Ell", "NL">>, <<"CM">>, <<"Ell", "CS", "NL">>, <<"Ell", "CM2">>, <<"Ell", "NL", "NL">>,
          <<"Ell", "NL", "Ell", "NL">>, <<"Ell">>, <<"Ell", "NL", "CM2", "CM">>}
    ELSE {<< >>}
Margins == IF On({"layout", "wild"}) THEN Separations \cup {<< >>} ELSE {<< >>}
Quiet(ks) == [i \in 1..Len(ks) |-> q(ks[i])]

LitKinds == IF On({"layout", "wild"}) THEN {"Lit", "ML"} ELSE {"Lit"}

Sep == n("Sep")
\* The alternatives of a nonterminal.
Alts(x) ==
  CASE x = "Prog"  -> {<<n("Margin")>>, <<n("Margin"), n("Stmts"), n("Margin")>>}
    [] x = "Margin" -> {Quiet(m) : m \in Margins}
    [] x = "Sep"   -> {Quiet(m) : m \in Separations}
    [] x = "Stmts" -> {<<n("Stmt")>>, <<n("Stmt"), Sep, n("Stmts")>>}
    [] x = "Stmt"  -> {<<n(f)>> : f \in SimpleForms \cup BlockForms \cup (IF Bad THEN {"Malformed"} ELSE {})}
    [] x = "Malformed" -> {<<b>> : b \in BadForms}
    [] x = "Body"  -> {<< >>, <<e("(astblock"), n("Stmts"), Sep, e(")")>>}
    \* expressions
    [] x = "Lit"   -> {<<e("(literalvalue"), t(k), e(")")>> : k \in LitKinds}
    [] x = "Var0"  -> {<<e("(variableaccess"), t("Id"), e(")")>>}
    [] x = "Var"   -> {<<e("(variableaccess"), n("Ident"), n("Slots"), e(")")>>}
    [] x = "Ident" -> {<<t("Id")>>, <<t("SRS"), t("Id")>>}
    [] x = "Slots" -> {<< >>, <<t("Slot"), n("Ident"), n("Slots")>>}
    [] x = "Expr"  -> {<<n(f)>> : f \in ExprForms}
    [] x = "OpenExpr" -> {<<n(f)>> : f \in OpenForms}
    [] x = "ExprEnd" -> {<<n(f)>> : f \in ExprForms \cup OpenForms}
    [] x = "Unary" -> {<<e("(unaryoperation")>> \o Op("not", "NOT") \o <<n("Expr"), e(")")>>}
    [] x = "UnaryOpen" -> {<<e("(unaryoperation")>> \o Op("not", "NOT") \o <<n("OpenExpr"), e(")")>>}
    [] x = "Binary" -> {<<e("(binaryoperation"), n("BinOp"), n("Expr"), n("An"), n("Expr"), e(")")>>}
    [] x = "BinaryOpen" -> {<<e("(binaryoperation"), n("BinOp"), n("Expr"), n("An"), n("OpenExpr"), e(")")>>}
    [] x = "An"    -> {<< >>, <<t("AN")>>}
    [] x = "BinOp" -> {Op(BinaryName[k], k) : k \in SomeBinary}
    [] x = "NaryOp" -> {Op(NaryName[k], k) : k \in SomeNary}
    [] x = "NaryClosed" -> {<<e("(naryoperation"), n("NaryOp"), n("Operands"), t("MKAY"), e(")")>>}
    [] x = "Operands" -> {<< >>, <<n("Expr"), n("An"), n("Operands")>>}
    [] x = "NaryOpen" -> {<<e("(naryoperation"), n("NaryOp"), n("Operands"), e(")")>>,
                          <<e("(naryoperation"), n("NaryOp"), n("Operands"), n("OpenExpr"), e(")")>>}
    \* simple statements
    [] x = "Decl" -> {<<e("(ihasa"), t("I_HAS_A"), n("Ident"), e(")")>>}
    [] x = "DeclType" -> {<<e("(ihasa"), t("I_HAS_A"), n("Ident"), q("ITZ")>> \o Op(TypeName[k], k) \o <<e(")")>>
                            : k \in SomeTypes}
    [] x = "DeclValue" -> {<<e("(ihasa"), t("I_HAS_A"), n("Ident"), q("ITZ"), n("ExprEnd"), e(")")>>}
    [] x = "Assign" -> {<<e("(variableassignment"), n("Var"), t("R"), n("ExprEnd"), e(")")>>}
    [] x = "SlotDecl" -> {<<e("(bukkitsetslot"), n("Var"), q("HAS_A"), n("Ident"), q("ITZ"), n("ExprEnd"), e(")")>>}
    [] x = "Input" -> {<<e("(gimmeh"), t("GIMMEH"), n("Var"), e(")")>>}
    [] x = "Output" -> {<<e("(visible"), t("VISIBLE"), n("Exprs"), e(")")>>}
    [] x = "OutputOpen" -> {<<e("(visible"), t("VISIBLE"), n("Exprs"), n("OpenExpr"), e(")")>>}
    [] x = "OutputBang" -> {<<e("(visible"), t("VISIBLE"), n("Exprs"), t("Bang"), e(")")>>}
    [] x = "Exprs" -> {<< >>, <<n("Expr"), n("Exprs")>>}
    [] x = "Call" -> {<<e("(iiz"), t("I_IZ"), n("Var"), n("Args"), q("MKAY"), e(")")>>}
    [] x = "Args" -> {<< >>, <<q("YR"), n("Expr")>>, <<q("YR"), n("Expr"), q("AN"), n("Args")>>}
    [] x = "Return" -> {<<e("(foundyr"), t("FOUND_YR"), n("ExprEnd"), e(")")>>}
    [] x = "Hai" -> {<<e("(hai"), t("HAI"), n("Version"), e(")")>>}
    [] x = "Version" -> {<< >>} \cup {<<t(k), n("Version")>> : k \in {"Id", "VISIBLE"} \cup LitKinds}
    [] x = "Kthxbye" -> {<<e("(kthxbye"), t("KTHXBYE"), e(")")>>}
    [] x = "Gtfo" -> {<<e("(gtfo"), t("GTFO"), e(")")>>}
    [] x = "ExprStmt" -> {<<n("ExprEnd")>>}
    \* constructs
    [] x = "Func" -> {<<e("(howizi"), t("HOW_IZ_I"), n("Ident"), n("Params"), Sep, n("Body"), q("IF_U_SAY_SO"), e(")")>>}
    [] x = "Params" -> {<< >>, <<q("YR"), n("Ident")>>, <<q("YR"), n("Ident"), q("AN"), n("Params")>>}
    [] x = "Loop" -> {<<e("(iminyr"), t("IM_IN_YR"), t("Id"), n("LoopOp"), n("LoopCond"), Sep, n("Body"),
                        q("IM_OUTTA_YR"), t("Id"), e(")")>>}
    [] x = "LoopOp" -> {<< >>} \cup {Op(LoopWord[k], k) \o <<q("YR"), n("Var")>> : k \in {"UPPIN", "NERFIN"}}
    [] x = "LoopCond" -> {<< >>} \cup {<<e("(" \o LoopWord[k]), q(k), n("ExprEnd"), e(")")>> : k \in {"TIL", "WILE"}}
    [] x = "If" -> {<<e("(orly"), t("O_RLY"), q("Qm"), Sep, n("YaRly"), n("Mebbes"), n("NoWai"), q("OIC"), e(")")>>}
    [] x = "YaRly" -> {<< >>, <<t("YA_RLY"), Sep, n("Body")>>}
    [] x = "Mebbes" -> {<< >>, <<t("MEBBE"), n("ExprEnd"), Sep, n("Body"), n("Mebbes")>>}
    [] x = "NoWai" -> {<< >>, <<t("NO_WAI"), Sep, n("Body")>>}
    [] x = "Switch" -> {<<e("(wtf"), t("WTF"), q("Qm"), Sep, n("Cases"), n("Default"), q("OIC"), e(")")>>}
    [] x = "Cases" -> {<< >>, <<t("OMG"), n("ExprEnd"), Sep, n("Body"), n("Cases")>>}
    [] x = "Default" -> {<< >>, <<t("OMGWTF"), Sep, n("Body")>>}

\* The fewest items a nonterminal derives.
Least ==
  [x \in {"Prog", "Margin", "Slots", "An", "Operands", "Exprs", "Args", "Version", "Params", "LoopOp", "LoopCond",
          "YaRly", "Mebbes", "NoWai", "Cases", "Default", "Body"} |-> 0]
  @@ [x \in {"Sep", "Stmts", "Stmt", "Lit", "Var", "Var0", "Ident", "Expr", "OpenExpr", "ExprEnd", "BinOp", "NaryOp", "NaryOpen",
             "Output", "Hai", "Kthxbye", "Gtfo", "ExprStmt", "Malformed"} |-> 1]
  @@ [x \in {"Unary", "UnaryOpen", "NaryClosed", "Decl", "Input", "OutputOpen", "OutputBang", "Return"} |-> 2]
  @@ [x \in {"Binary", "BinaryOpen", "Assign", "Call"} |-> 3]
  @@ [x \in {"DeclType", "DeclValue", "Func", "If", "Switch"} |-> 4]
  @@ [x \in {"SlotDecl", "Loop"} |-> 5]

LeastOf(sy) ==
    CASE sy[1] \in {"t", "q"} -> 1
      [] sy[1] = "e" -> 0
      [] sy[1] = "b" -> Len(BadStock[sy[2]])
      [] OTHER -> Least[sy[2]]
RECURSIVE LeastSum(_)
LeastSum(ss) == IF ss = << >> THEN 0 ELSE LeastOf(Head(ss)) + LeastSum(Tail(ss))

-----------------------------------------------------------------------------
(* Deriving.                                                               *)

DInit == /\ prog = << >> /\ phase = "type" /\ Reset
         /\ todo = <<n("Prog")>> /\ want = << >> /\ ord = 0 /\ fresh = TRUE /\ muts = 0

Deriving == phase = "type" /\ todo # << >>
H == Head(todo)
Room == MaxTok - Len(prog)
Layouts == {NLine, "Comma", "Ell"} \cup CommentKinds
Static == UNCHANGED <<segs, g, frames, out, phase>>

\* While the program is too short, its statements go on.
Outermost == H[2] \in {"Prog", "Stmts"} /\ Len(todo) <= 2
Fits(alt) == LeastSum(alt) + LeastSum(Tail(todo)) <= Room
GoesOn(alt) == Outermost /\ Len(prog) < MinTok /\ alt[Len(alt)] # n("Stmts") /\ H[2] = "Stmts"
               /\ Room > 8 + LeastSum(todo)

Expand == /\ Deriving /\ H[1] = "n"
          /\ \E alt \in Alts(H[2]) :
                /\ Fits(alt) /\ ~GoesOn(alt) /\ (H[2] = "Prog" /\ MinTok > 0 => Len(alt) > 1)
                /\ todo' = alt \o Tail(todo)
          /\ UNCHANGED <<prog, want, ord, fresh, muts>> /\ Static

Count(ks) == Cardinality({i \in 1..Len(ks) : ks[i] # NLine})
\* Tokens of a statement may be preceded by a join, except its first.
JoinsBefore(k) == IF fresh \/ k \in Layouts THEN {<< >>} ELSE Joins

Token == /\ Deriving /\ H[1] \in {"t", "q"}
         /\ \E j \in JoinsBefore(H[2]) :
              /\ Len(j) + LeastSum(todo) <= Room
              /\ prog' = prog \o j \o <<H[2]>>
              /\ ord' = ord + Count(j) + Count(<<H[2]>>)
         /\ want' = IF H[1] = "t" THEN Append(want, "#" \o ToString(ord')) ELSE want
         /\ fresh' = (H[2] \in Layouts /\ (fresh \/ H[2] \in {NLine, "Comma", "CM2"}))
         /\ todo' = Tail(todo) /\ UNCHANGED muts /\ Static

Event == /\ Deriving /\ H[1] = "e"
         /\ want' = Append(want, H[2]) /\ todo' = Tail(todo)
         /\ UNCHANGED <<prog, ord, fresh, muts>> /\ Static

\* C13: a malformed statement leaves what it leaves on its own.
BadHeaderNodes(s) ==
    LET r == Header(s) IN IF ~r.ok THEN ErrorNode(r.e) \o LeftOver(s, r.n) ELSE LeftOver(s, r.n)
Malformed ==
    /\ Deriving /\ H[1] = "b"
    /\ LET ks == BadStock[H[2]]
           s == [k |-> ks, o |-> [i \in 1..Len(ks) |-> ord + i]]
       IN /\ prog' = prog \o ks /\ ord' = ord + Len(ks)
          /\ want' = want \o (IF ks[1] \in OpenerKinds THEN BadHeaderNodes(s) ELSE NodesOf(s))
    /\ todo' = Tail(todo) /\ fresh' = FALSE /\ UNCHANGED muts /\ Static

\* One token of the program is dropped, doubled, replaced or added, or the program is cut short.
MutKinds == {"Id", "Lit", "AN", "MKAY", "YR", "R", "ITZ", "Slot", "SRS", "NL", "Comma", "Bang", "NOT", "OIC", "GTFO",
             "IM_OUTTA_YR", "MEBBE", "O_RLY", "Qm", "HAS_A", "UPPIN", "TIL", "OMG", "IF_U_SAY_SO", "SUM_OF", "SMOOSH"}
Cut(s, i) == SubSeq(s, 1, i)
From(s, i) == SubSeq(s, i, Len(s))
NotAfterNote(p) == \A i \in 1..(Len(p) - 1) : p[i] = "CS" => p[i + 1] = NLine
Mutate == /\ phase = "type" /\ todo = << >> /\ muts < Muts /\ prog # << >>
          /\ \E i \in {RandomElement(1..Len(prog))} : \E k \in {RandomElement(MutKinds)} :
               /\ prog' \in {Cut(prog, i - 1) \o From(prog, i + 1), Cut(prog, i) \o From(prog, i),
                             Cut(prog, i - 1) \o <<k>> \o From(prog, i + 1), Cut(prog, i) \o <<k>> \o From(prog, i + 1),
                             Cut(prog, i - 1)}
               /\ NotAfterNote(prog')
          /\ muts' = muts + 1 /\ want' = << >> /\ UNCHANGED <<todo, ord, fresh>> /\ Static

Derived == /\ phase = "type" /\ todo = << >> /\ Load /\ UNCHANGED gvars

DNext == Expand \/ Token \/ Event \/ Malformed \/ Mutate \/ Derived \/ (ParseNext /\ UNCHANGED gvars)
DSpec == DInit /\ [][DNext]_<<pvars, gvars>>

-----------------------------------------------------------------------------
\* C09, C10, C11, C13: the parser machine builds the tree of the derivation.
SameTree == (phase = "done" /\ muts = 0) => out = want
\* C12: no errors unless a malformed statement was derived.
NoFalseErrors == (phase = "done" /\ ~Bad /\ muts = 0) => ~HasErrors(out)

\* Conformance vectors: the program and the tree the real parser must build.
Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
