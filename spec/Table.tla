------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The parser's table, row by row: wherever a small program can be cut,    *)
(* every kind of token comes next, and then nothing, one more token, or    *)
(* the rest of the program, as it was or without the token replaced.       *)
(***************************************************************************)
EXTENDS Sentence, Stock, Json

CONSTANTS Tails      \* what may follow: "none", "one", "rest", "instead", "pair"

VARIABLES whole,     \* the program that was cut
          at         \* where

tvars == <<whole, at>>

TInit == /\ \E n \in 1..Len(StockPrograms) : whole = StockPrograms[n]
         /\ at \in 0..Len(whole)
         /\ prog = SubSeq(whole, 1, at) /\ phase = "type" /\ Reset

After(k) ==
    UNION {CASE x = "none" -> {<<k>>}
             [] x = "one" -> {<<k, l>> : l \in {"Id", "NL"}}
             [] x = "pair" -> {<<k, l>> : l \in AllKinds}
             [] x = "rest" -> {<<k>> \o SubSeq(whole, at + 1, Len(whole))}
             [] x = "instead" -> {<<k>> \o SubSeq(whole, at + 2, Len(whole))} : x \in Tails}

Cut == /\ phase = "type"
       /\ \E k \in AllKinds : \E t \in After(k) : prog' = prog \o t
       /\ phase' = "typed"
       /\ UNCHANGED <<tvars, segs, g, frames, out>>
TNext == Cut \/ (phase = "typed" /\ Load /\ UNCHANGED tvars) \/ (ParseNext /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>

Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
