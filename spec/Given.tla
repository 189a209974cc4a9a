-------------------------------- MODULE Given --------------------------------
(***************************************************************************)
(* The parser machine run on programs somebody else wrote: a file of them, *)
(* each a sequence of items.  TLC says what tree each must have, and       *)
(* checks on it what holds of every run of the machine.                    *)
(***************************************************************************)
EXTENDS Parser, Json

CONSTANTS ProgFile

Progs == ndJsonDeserialize(ProgFile)

Init == /\ \E n \in 1..Len(Progs) : prog = Progs[n].p
        /\ phase = "type" /\ Reset
Next == (phase = "type" /\ Load) \/ ParseNext
Spec == Init /\ [][Next]_pvars

\* Every statement ends up in the tree or in an error: no step leaves a statement unread.
AllRead == phase = "done" => g = Len(segs) + 1
WellBracketed == phase = "done" => Bracketed
Emit == phase = "done" => PrintT(ToJson(<<prog, out>>))
=============================================================================
