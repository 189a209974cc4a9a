-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* Walking a sequence of n things with two iterators at once.  An iterator *)
(* may be asked for its next item, told to skip, asked how much is left,   *)
(* or used up (counted, its last item taken, everything collected); one    *)
(* that is used up or dropped is replaced by a new one.  What one iterator *)
(* gives depends on the sequence and on what was asked of itself, not on   *)
(* the other one.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Lengths,   \* of the sequence
          MaxOps,    \* length of a history
          Jumps      \* how many items are skipped at a time

VARIABLES n,
          at,        \* items each iterator has given or skipped
          asked,     \* what each iterator has given since it was new
          hist       \* <<operation, iterator, argument, answer>>
vars == <<n, at, asked, hist>>

Iterators == {1, 2}
Least(a, b) == IF a < b THEN a ELSE b
Rest(w) == [k \in 1..(n - at[w]) |-> at[w] + k]

Init == /\ n \in Lengths /\ at = [w \in Iterators |-> 0]
        /\ asked = [w \in Iterators |-> << >>] /\ hist = << >>

Say(op, w, arg, answer) == hist' = Append(hist, <<op, w, arg, answer>>)
Move(w, j) == at' = [at EXCEPT ![w] = j]
Gave(w, x) == asked' = [asked EXCEPT ![w] = IF x = 0 THEN @ ELSE Append(@, x)]
Item(k) == IF k <= n THEN k ELSE 0     \* 0: nothing

Next1(w) == /\ Say("next", w, 0, <<Item(at[w] + 1)>>) /\ Move(w, Least(n, at[w] + 1)) /\ Gave(w, Item(at[w] + 1))
Skip(w, k) == /\ Say("nth", w, k, <<Item(at[w] + k + 1)>>) /\ Move(w, Least(n, at[w] + k + 1)) /\ Gave(w, Item(at[w] + k + 1))
Take(w, k) == LET got == [j \in 1..Least(k, n - at[w]) |-> at[w] + j] IN
              /\ Say("take", w, k, got) /\ Move(w, Least(n, at[w] + k)) /\ asked' = [asked EXCEPT ![w] = @ \o got]
Hint(w) == Say("hint", w, 0, <<n - at[w]>>) /\ UNCHANGED <<at, asked>>
Over(w) == Move(w, 0) /\ asked' = [asked EXCEPT ![w] = << >>]
Count(w) == Say("count", w, 0, <<n - at[w]>>) /\ Over(w)
Last(w) == Say("last", w, 0, <<IF at[w] < n THEN n ELSE 0>>) /\ Over(w)
Collect(w) == Say("collect", w, 0, Rest(w)) /\ Over(w)
Fresh(w) == Say("fresh", w, 0, << >>) /\ Over(w)

Next == /\ Len(hist) < MaxOps /\ UNCHANGED n
        /\ \E w \in Iterators : \/ Next1(w) \/ Hint(w) \/ Count(w) \/ Last(w) \/ Collect(w) \/ Fresh(w)
                                \/ \E k \in Jumps : Skip(w, k) \/ Take(w, k)
Spec == Init /\ [][Next]_vars

\* Items come in order, none twice, and none that is not there.
Once == \A w \in Iterators : /\ \A k \in 1..Len(asked[w]) : asked[w][k] \in 1..n /\ asked[w][k] <= at[w]
                             /\ \A k \in 2..Len(asked[w]) : asked[w][k - 1] < asked[w][k]
\* The end is for good.
ForGood == \A k \in 1..(Len(hist) - 1) : \A m \in (k + 1)..Len(hist) :
    (/\ hist[k][2] = hist[m][2] /\ hist[k][1] \in {"next", "nth"} /\ hist[k][4] = <<0>> /\ hist[m][1] \in {"next", "nth"}
     /\ \A j \in k..m : hist[j][2] = hist[k][2] => hist[j][1] \in {"next", "nth", "take", "hint"}) => hist[m][4] = <<0>>

Emit == Len(hist) = MaxOps => PrintT(ToJson(<<n, hist>>))
=============================================================================
