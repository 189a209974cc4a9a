---------------------------- MODULE LayoutMachine ----------------------------
(***************************************************************************)
(* The statement cursor: reads tokens one at a time and decides, from the  *)
(* current line alone, whether the next token still belongs to the         *)
(* statement.  One action per branch of the cursor.                        *)
(***************************************************************************)
EXTENDS Layout

CONSTANTS MaxItems

Alphabet == {"HAI", "ML", "Comma", "Ell", "NL", "CM2", "CS"}

VARIABLES items,   \* the program
          typing,  \* still being typed
          rest,    \* numbers of the tokens not read yet, comments left out
          line,    \* where the current statement may go on
          cur,     \* the statement being read
          segs     \* statements read

cvars == <<items, typing, rest, line, cur, segs>>

Toks == TokensOf(items)
First == Toks[Head(rest)]
LineOf(r, old) == IF r = << >> THEN old ELSE Toks[Head(r)].a

Init == items = << >> /\ typing = TRUE /\ rest = << >> /\ line = 0 /\ cur = << >> /\ segs = << >>

\* A line comment is always followed by the end of its line.
Type == /\ typing /\ Len(items) < MaxItems
        /\ \E k \in Alphabet :
              items' = IF k = "CS" THEN items \o <<"CS", "NL">> ELSE Append(items, k)
        /\ UNCHANGED <<typing, rest, line, cur, segs>>

Begin == /\ typing /\ typing' = FALSE
         /\ rest' = SelectSeq([i \in 1..Len(Toks) |-> i], LAMBDA i : ~IsComment(Toks[i]))
         /\ line' = LineOf(rest', 0)
         /\ UNCHANGED <<items, cur, segs>>

Reading == ~typing /\ rest # << >>

\* An ellipsis on the current line moves the statement to the next token's line.
Join == /\ Reading /\ First.k = "Ell" /\ First.a = line
        /\ rest' = Tail(rest) /\ line' = LineOf(rest', line)
        /\ UNCHANGED <<items, typing, cur, segs>>

Read == /\ Reading /\ ~IsSep(First) /\ First.a = line
        /\ cur' = Append(cur, Head(rest))
        /\ rest' = Tail(rest) /\ line' = First.z
        /\ UNCHANGED <<items, typing, segs>>

Flushed == IF cur = << >> THEN segs ELSE Append(segs, cur)

\* The statement ends; separators before the next one are skipped.
RECURSIVE SkipSeps(_)
SkipSeps(r) == IF r # << >> /\ IsSep(Toks[Head(r)]) THEN SkipSeps(Tail(r)) ELSE r

EndStatement ==
    /\ Reading
    /\ \/ First.k = "Comma"
       \/ First.a # line
    /\ segs' = Flushed /\ cur' = << >>
    /\ rest' = SkipSeps(rest) /\ line' = LineOf(rest', line)
    /\ UNCHANGED <<items, typing>>

EndProgram == /\ ~typing /\ rest = << >> /\ cur # << >>
              /\ segs' = Flushed /\ cur' = << >>
              /\ UNCHANGED <<items, typing, rest, line>>

Next == Type \/ Begin \/ Join \/ Read \/ EndStatement \/ EndProgram
Spec == Init /\ [][Next]_cvars

\* The cursor cuts the program where the definition says.
Agrees == (~typing /\ rest = << >> /\ cur = << >>) => segs = SegmentsOf(Toks)
\* It never reads a separator or comment into a statement, and never gets stuck.
OnlyContent == \A i \in 1..Len(cur) : ~IsSep(Toks[cur[i]]) /\ ~IsComment(Toks[cur[i]])
NotStuck == Reading => ENABLED Next
=============================================================================
