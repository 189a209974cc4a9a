------------------------------ MODULE Sentence -------------------------------
(***************************************************************************)
(* Which statements, and which sequences of statements, are grammatical:   *)
(* said by cutting a sequence into parts, with no parser in it and no      *)
(* tree.  A sequence of kinds is an expression, an open expression (one    *)
(* that only the end of its statement closes), a statement; a sequence of  *)
(* statements is a program.  What is checked with it: the parser machine   *)
(* reports an error exactly for the programs that are not.                 *)
(***************************************************************************)
EXTENDS Parser

Cutting(s) == 1..(Len(s) - 1)
Fore(s, i) == SubSeq(s, 1, i)
Aft(s, i) == SubSeq(s, i + 1, Len(s))
Starts(s, k) == Len(s) > 0 /\ s[1] = k

IsName(s) == s = <<"Id">> \/ s = <<"SRS", "Id">>
RECURSIVE IsVar(_)
IsVar(s) == IsName(s) \/ \E i \in Cutting(s) : s[i] = "Slot" /\ i > 1 /\ IsName(Aft(s, i)) /\ IsVar(Fore(s, i - 1))

RECURSIVE IsExpr(_), IsOpen(_), AreOperands(_)
IsExpr(s) ==
    \/ s \in {<<"Lit">>, <<"NOOB">>}
    \/ IsVar(s)
    \/ Starts(s, "NOT") /\ IsExpr(Tail(s))
    \/ /\ Len(s) > 2 /\ s[1] \in BinaryKinds
       /\ \E i \in 2..(Len(s) - 1) : /\ IsExpr(SubSeq(s, 2, i))
                                     /\ IsExpr(Aft(s, i)) \/ (s[i + 1] = "AN" /\ IsExpr(Aft(s, i + 1)))
    \/ Len(s) > 1 /\ s[1] \in NaryKinds /\ s[Len(s)] = "MKAY" /\ AreOperands(SubSeq(s, 2, Len(s) - 1))
\* Expressions one after the other, each with an AN behind it or not.
AreOperands(s) == s = << >> \/ \E i \in 1..Len(s) : IsExpr(Fore(s, i)) /\ (AreOperands(Aft(s, i))
                                                     \/ (i < Len(s) /\ s[i + 1] = "AN" /\ AreOperands(Aft(s, i + 1))))
IsOpen(s) ==
    \/ Starts(s, "NOT") /\ IsOpen(Tail(s))
    \/ /\ Len(s) > 2 /\ s[1] \in BinaryKinds
       /\ \E i \in 2..(Len(s) - 1) : /\ IsExpr(SubSeq(s, 2, i))
                                     /\ IsOpen(Aft(s, i)) \/ (s[i + 1] = "AN" /\ IsOpen(Aft(s, i + 1)))
    \/ /\ Len(s) > 0 /\ s[1] \in NaryKinds
       /\ AreOperands(Tail(s)) \/ \E i \in 1..(Len(s) - 1) : AreOperands(SubSeq(s, 2, i)) /\ IsOpen(Aft(s, i))
IsValue(s) == IsExpr(s) \/ IsOpen(s)

RECURSIVE ArePrinted(_)
ArePrinted(s) == s = << >> \/ \E i \in 1..Len(s) : IsExpr(Fore(s, i)) /\ ArePrinted(Aft(s, i))

\* f of the part of s behind its first k, p of the part before it; whichever place of k it is.
Around(s, k, p(_), f(_)) == \E i \in 1..Len(s) : s[i] = k /\ p(Fore(s, i - 1)) /\ f(Aft(s, i))

\* YR x AN YR x AN ..., each x a name or an expression.
IsOne(s, names) == IF names THEN IsName(s) ELSE IsExpr(s)
RECURSIVE AreYR(_, _)
AreYR(s, names) ==
    \/ s = << >>
    \/ Starts(s, "YR") /\ (IsOne(Tail(s), names) \/ \E i \in 2..Len(s) : s[i] = "AN" /\ IsOne(SubSeq(s, 2, i - 1), names)
                                                                         /\ AreYR(Aft(s, i), names))

IsDeclared(s) == IsName(s) \/ Around(s, "ITZ", IsName, LAMBDA v : IsValue(v) \/ (Len(v) = 1 /\ v[1] \in TypeKinds))
IsSlotSet(s) == Around(s, "HAS_A", IsVar, LAMBDA v : Around(v, "ITZ", IsName, IsValue))
IsCall(s) == /\ Len(s) > 1 /\ s[Len(s)] = "MKAY"
             /\ \E i \in 1..(Len(s) - 1) : IsVar(Fore(s, i)) /\ AreYR(SubSeq(s, i + 1, Len(s) - 1), FALSE)
IsLoopHead(s) ==
    /\ Len(s) > 0 /\ s[1] = "Id"
    /\ \E i \in 1..Len(s) :
          /\ i = 1 \/ (i > 3 /\ s[2] \in {"UPPIN", "NERFIN"} /\ s[3] = "YR" /\ IsVar(SubSeq(s, 4, i)))
          /\ i = Len(s) \/ (s[i + 1] \in {"TIL", "WILE"} /\ IsValue(Aft(s, i + 1)))
IsFuncHead(s) == \E i \in 1..Len(s) : IsName(Fore(s, i)) /\ AreYR(Aft(s, i), TRUE)

\* A statement that is no part of a construct.
IsStatement(s) ==
    LET r == Tail(s) IN
    CASE s[1] = "I_HAS_A" -> IsDeclared(r)
      [] s[1] = "VISIBLE" -> \/ ArePrinted(r)
                             \/ r # << >> /\ r[Len(r)] = "Bang" /\ ArePrinted(Fore(r, Len(r) - 1))
                             \/ \E i \in 0..(Len(r) - 1) : ArePrinted(Fore(r, i)) /\ IsOpen(Aft(r, i))
      [] s[1] = "GIMMEH" -> IsVar(r)
      [] s[1] = "FOUND_YR" -> IsValue(r)
      [] s[1] = "HAI" -> TRUE
      [] s[1] \in {"KTHXBYE", "GTFO"} -> r = << >>
      [] s[1] = "I_IZ" -> IsCall(r)
      [] OTHER -> IsValue(s) \/ Around(s, "R", IsVar, IsValue) \/ IsSlotSet(s)

-----------------------------------------------------------------------------
(* Programs: p is a sequence of statements.                                *)

Alone(s, k) == s = <<k>>
IsAsk(s, k) == Len(s) = 2 /\ s[1] = k /\ s[2] \in {"Qm", "SymQ"}
Asks(s, k) == Len(s) > 1 /\ s[1] = k /\ IsValue(Tail(s))

\* Parts of a sequence of statements: from the i-th to the j-th.
RECURSIVE AreStatements(_), IsConstruct(_), Elses(_), Cases(_)
AreStatements(p) ==
    p = << >> \/ \E i \in 1..Len(p) : /\ IF i = 1 /\ p[1][1] \notin OpenerKinds THEN IsStatement(p[1]) ELSE IsConstruct(Fore(p, i))
                                      /\ AreStatements(Aft(p, i))
IsConstruct(p) ==
    /\ Len(p) > 1
    /\ LET h == p[1] z == p[Len(p)] inside == SubSeq(p, 2, Len(p) - 1) IN
       \/ h[1] = "HOW_IZ_I" /\ IsFuncHead(Tail(h)) /\ Alone(z, "IF_U_SAY_SO") /\ AreStatements(inside)
       \/ h[1] = "IM_IN_YR" /\ IsLoopHead(Tail(h)) /\ z = <<"IM_OUTTA_YR", "Id">> /\ AreStatements(inside)
       \/ /\ IsAsk(h, "O_RLY") /\ Alone(z, "OIC")
          /\ \/ Elses(inside)
             \/ /\ inside # << >> /\ Alone(inside[1], "YA_RLY")
                /\ \E i \in 1..Len(inside) : AreStatements(SubSeq(inside, 2, i)) /\ Elses(Aft(inside, i))
       \/ IsAsk(h, "WTF") /\ Alone(z, "OIC") /\ Cases(inside)
Elses(p) ==
    \/ p = << >>
    \/ Alone(p[1], "NO_WAI") /\ AreStatements(Tail(p))
    \/ Asks(p[1], "MEBBE") /\ \E i \in 1..Len(p) : AreStatements(SubSeq(p, 2, i)) /\ Elses(Aft(p, i))
Cases(p) ==
    \/ p = << >>
    \/ Alone(p[1], "OMGWTF") /\ AreStatements(Tail(p))
    \/ Asks(p[1], "OMG") /\ \E i \in 1..Len(p) : AreStatements(SubSeq(p, 2, i)) /\ Cases(Aft(p, i))

Grammatical == AreStatements([i \in 1..Len(segs) |-> segs[i].k])

\* C12: there are errors exactly where the program is not grammatical.
ErrorsIffUngrammatical == phase = "done" => (HasErrors(out) <=> ~Grammatical)
=============================================================================
