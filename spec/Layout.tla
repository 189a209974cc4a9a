------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Which tokens form a statement.  A program is a sequence of items: token *)
(* kinds and line breaks.  Tokens take one line, except those that contain *)
(* line breaks themselves (a string or a block comment over two lines).    *)
(*                                                                         *)
(* Said twice: as a definition (Boundary, SegmentsOf) and, in              *)
(* LayoutMachine, as the cursor that the implementation moves over the     *)
(* tokens.  TLC checks that both agree.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NLine == "NL"
\* Tokens that span two lines.
TwoLine == {"ML", "CM2"}
CommentKinds == {"CS", "CM", "CM2"}
Separators == {"Comma", "Ell"}

Breaks(items, i) == Cardinality({j \in 1..(i - 1) : items[j] = NLine \/ items[j] \in TwoLine})

\* What a kind is to the parser: a literal is a literal on however many lines.
Plain(k) == IF k = "ML" THEN "Lit" ELSE IF k = "CM2" THEN "CM" ELSE k

\* Tokens: kind, first line, last line.
TokensOf(items) ==
    LET idx == SetToSortSeq({i \in 1..Len(items) : items[i] # NLine}, <)
    IN [n \in 1..Len(idx) |->
          LET i == idx[n] a == 1 + Breaks(items, i)
          IN [k |-> Plain(items[i]), a |-> a, z |-> IF items[i] \in TwoLine THEN a + 1 ELSE a]]

IsComment(t) == t.k \in CommentKinds
IsSep(t) == t.k \in Separators

(***************************************************************************)
(* Between two consecutive content tokens p and q there is a boundary if   *)
(* there is a comma between them, or if what follows p (the first          *)
(* separator, else q) does not start on the line p ends on.  An ellipsis   *)
(* on p's line joins p with whatever comes next.                           *)
(***************************************************************************)
Boundary(toks, p, q) ==
    LET seps == {i \in (p + 1)..(q - 1) : ~IsComment(toks[i])}
        next == IF seps = {} THEN q ELSE CHOOSE i \in seps : \A j \in seps : i <= j
    IN \/ \E i \in seps : toks[i].k = "Comma"
       \/ toks[next].a # toks[p].z

\* Statements: sequences of token numbers, in order.
SegmentsOf(toks) ==
    LET cont == SetToSortSeq({i \in 1..Len(toks) : ~IsComment(toks[i]) /\ ~IsSep(toks[i])}, <)
        starts == SetToSortSeq({c \in 1..Len(cont) : c = 1 \/ Boundary(toks, cont[c - 1], cont[c])}, <)
    IN [g \in 1..Len(starts) |->
          SubSeq(cont, starts[g], IF g = Len(starts) THEN Len(cont) ELSE starts[g + 1] - 1)]
=============================================================================
