------------------------------- MODULE Blocks --------------------------------
(***************************************************************************)
(* Blocks put together by hand.  The nodes of parsed programs are put into *)
(* two blocks: given as an array, parsed in one go, put in at an end or in *)
(* the middle, taken out, turned round; blocks are copied, exchanged,      *)
(* emptied and rebuilt from what they hand out.  After any history a block *)
(* holds just these nodes in their order, lists the errors they hold (at   *)
(* any depth) in source order, and equals another that holds the same.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxSteps, Big    \* how large an array may be

VARIABLES a, b,    \* what the blocks hold: numbers of nodes
          hist     \* <<operation, argument, the first block, the second, the errors listed by the first, 1 if they are equal, else 0>>
vars == <<a, b, hist>>

Ok == <<"ok">>
Bad == <<"bad">>
\* A section that is not there.
None == << <<"absent">> >>
\* The nodes, as trees: <<construct, block, ...>>; each is parsed from a text of its own.
Stock == << Ok,
            Bad,
            <<"loop", <<Bad, Ok, Bad>> >>,
            <<"func", << >> >>,
            <<"if", <<Ok, Bad>>, <<Bad>>, << >>, <<Bad, Bad>> >>,
            <<"switch", <<Bad>>, <<Ok>>, <<Bad>> >>,
            <<"func", <<Bad, <<"loop", << <<"if", <<Bad>>, << >>, << >>, << <<"switch", << >>, << >>, <<Bad, Ok>> >> >> >>, Bad>> >>, Bad>> >>,
            <<"loop", <<Ok, <<"loop", <<Ok>> >> >> >>,
            <<"if", None, <<Bad>>, <<Ok, Bad>>, <<Bad>> >>,
            <<"if", None, None, None, <<Bad, Ok>> >>,
            <<"if", <<Bad>>, None, None, None>>,
            <<"if", None, <<Bad>>, << >>, None>>,
            <<"switch", <<Ok, Bad>>, None, None>>,
            <<"switch", None, None, <<Bad>> >> >>
NStock == Len(Stock)

\* The errors of a tree are numbered in source order; how many there are:
RECURSIVE Count(_), CountAll(_, _), CountBlocks(_, _)
Count(t) == CASE t = Bad -> 1 [] t = Ok \/ t = None[1] -> 0 [] OTHER -> CountBlocks(t, 2)
CountAll(ts, k) == IF k > Len(ts) THEN 0 ELSE Count(ts[k]) + CountAll(ts, k + 1)
CountBlocks(t, k) == IF k > Len(t) THEN 0 ELSE CountAll(t[k], 1) + CountBlocks(t, k + 1)
Counts == [k \in 1..NStock |-> Count(Stock[k])]

RECURSIVE Listed(_, _)
Listed(xs, k) == IF k > Len(xs) THEN << >> ELSE [j \in 1..Counts[xs[k]] |-> <<xs[k], j>>] \o Listed(xs, k + 1)

Cycle(n) == [i \in 1..n |-> ((i * 5) % NStock) + 1]
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]

Arrays == {<< >>, <<1>>, <<2>>, <<5>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 5>>, <<1, 2, 1>>, <<3, 2, 6>>, <<7, 1, 7>>, <<2, 1, 3, 2>>, <<1, 1>>, <<2, 1, 1>>, <<9, 14, 10>>, <<11, 12, 13>>}
Parses == {<<1, 2>>, <<2, 3, 8>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<9, 10, 11, 12, 13, 14>>}
Small == {1, 2, 3, 7, 9}

Init == a = << >> /\ b = << >> /\ hist = << >>

Do(op, arg, x, y) == /\ Len(hist) < MaxSteps /\ a' = x /\ b' = y
                     /\ hist' = Append(hist, <<op, arg, x, y, Listed(x, 1), IF x = y THEN 1 ELSE 0>>)

Array == \/ \E xs \in Arrays : Do("array", xs, xs, b)
         \/ \E n \in Big : Len(a) < 40 /\ Len(b) < 40 /\ Do("array", Cycle(n), Cycle(n), b)
Empty == Do("default", << >>, << >>, b)
Parse == \E xs \in Parses : Do("parse", xs, xs, b)
PushBack == \E k \in Small : Do("push_back", <<k>>, Append(a, k), b)
PushFront == \E k \in Small : Do("push_front", <<k>>, <<k>> \o a, b)
Insert == Len(a) >= 2 /\ \E k \in {1, 5} : Do("insert", <<k>>, <<a[1], k>> \o Tail(a), b)
PopBack == Len(a) > 0 /\ Do("pop_back", << >>, SubSeq(a, 1, Len(a) - 1), b)
PopFront == Len(a) > 0 /\ Do("pop_front", << >>, Tail(a), b)
Rotate == Len(a) > 1 /\ Do("rotate", << >>, Append(Tail(a), a[1]), b)
Reverse == Len(a) > 1 /\ Do("reverse", << >>, Rev(a), b)
Join == Len(a) + Len(b) <= 700 /\ Do("append", << >>, a \o b, << >>)
Swap == a # b /\ Do("swap", << >>, b, a)
Copy == a # b /\ Do("copy", << >>, a, a)
Rebuild == Do("rebuild", << >>, a, b)
Keep == Len(a) > 0 /\ Do("without", <<2>>, SelectSeq(a, LAMBDA k : k # 2), b)

Next == Array \/ Empty \/ Parse \/ PushBack \/ PushFront \/ Insert \/ PopBack \/ PopFront \/ Rotate \/ Reverse \/ Join \/ Swap \/ Copy
        \/ Rebuild \/ Keep
Spec == Init /\ [][Next]_vars

\* Each error is listed as often as its node is there, and in source order within it.
Exact == hist # << >> =>
    LET e == hist[Len(hist)][5]
        Times(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
        InA(k) == Times(a, k)
    IN /\ \A k \in 1..NStock : \A j \in 1..Counts[k] : Times(e, <<k, j>>) = InA(k)
       /\ \A i \in 1..(Len(e) - 1) : e[i][1] = e[i + 1][1] => (e[i + 1][2] = e[i][2] + 1 \/ e[i + 1][2] = 1)
Emit == Len(hist) = MaxSteps => PrintT(ToJson(<<[k \in 1..NStock |-> Stock[k]], hist>>))
=============================================================================
