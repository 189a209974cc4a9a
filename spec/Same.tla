-------------------------------- MODULE Same ---------------------------------
(***************************************************************************)
(* When two tokens, and when two trees, are the same.  A token here has a  *)
(* kind, a payload and a place (lines and columns of both its ends); two   *)
(* tokens are the same when all of it is.  Two trees are the same when     *)
(* their nodes are and the tokens kept in them are.                        *)
(*                                                                         *)
(* TLC takes a program, changes it in one place, runs the parser machine   *)
(* on both and says which of the tokens and whether the trees are the same.*)
(***************************************************************************)
EXTENDS Parser, Stock, Json

CONSTANTS ProgFile,  \* programs somebody else wrote, or ""
          Every      \* of the possible changes, every so-many-th is made

VARIABLES base,     \* the program
          edit,     \* the change
          first,    \* the tree of the unchanged program, once it is known
          verdict   \* on the two of them

svars == <<base, edit, first, verdict>>

Given == IF ProgFile = "" THEN << >> ELSE ndJsonDeserialize(ProgFile)

-----------------------------------------------------------------------------
(* Tokens with payloads and places.                                        *)

\* How many different payloads there are for a kind.
Payloads == [Id |-> 12, Lit |-> 20, ML |-> 4, CS |-> 4, CM |-> 4, CM2 |-> 2, Sym |-> 5]
PayloadsOf(k) == IF k \in DOMAIN Payloads THEN Payloads[k] ELSE 1

\* Kinds put in the place of another one.
Others(k) ==
    CASE k \in BinaryKinds -> BinaryKinds \ {k}
      [] k \in NaryKinds -> NaryKinds \ {k}
      [] k \in TypeKinds -> TypeKinds \ {k}
      [] k = "UPPIN" -> {"NERFIN"} [] k = "NERFIN" -> {"UPPIN"} [] k = "TIL" -> {"WILE"} [] k = "WILE" -> {"TIL"}
      [] k = "GTFO" -> {"KTHXBYE", "HAI", "Id"} [] k = "KTHXBYE" -> {"GTFO"} [] k = "HAI" -> {"VISIBLE"}
      [] k = "Lit" -> {"Id", "ML", "NOOB"} [] k = "ML" -> {"Lit"} [] k = "Id" -> {"Lit"} [] k = "NOOB" -> {"Lit"}
      [] k = "YA_RLY" -> {"NO_WAI"} [] k = "NO_WAI" -> {"YA_RLY"} [] k = "OMG" -> {"OMGWTF"}
      [] k = "FOUND_YR" -> {"GIMMEH", "VISIBLE"} [] k = "GIMMEH" -> {"FOUND_YR"} [] k = "VISIBLE" -> {"FOUND_YR"}
      [] k = "Sym" -> {"Qm", "Bang"} [] k = "Qm" -> {"SymQ", "Bang"}
      [] k = "Bang" -> {"AN"} [] k = "Comma" -> {"NL", "Ell"} [] k = "CS" -> {"CM"} [] k = "CM" -> {"CS"}
      [] k = "MKAY" -> {"AN"} [] k = "AN" -> {"MKAY"}
      [] OTHER -> {}

None == [what |-> "none", i |-> 0, p |-> 0, k |-> ""]
Changes(p) ==
    LET n == Len(p) IN
    {None}
    \cup UNION {{[what |-> "payload", i |-> i, p |-> x, k |-> ""] : x \in 1..(PayloadsOf(p[i]) - 1)} : i \in 1..n}
    \cup UNION {{[what |-> "kind", i |-> i, p |-> 0, k |-> x] : x \in Others(p[i])} : i \in 1..n}
    \cup {[what |-> w, i |-> i, p |-> 0, k |-> ""] : w \in {"right", "wide", "thin", "drop", "twice"}, i \in {j \in 1..n : p[j] # NLine}}
    \* Lines of one end only, where no other token depends on them.
    \cup {[what |-> "high", i |-> i, p |-> 0, k |-> ""] : i \in {j \in {1} \cap (1..n) : p[j] # NLine}}
    \cup {[what |-> "tall", i |-> i, p |-> x, k |-> ""] : x \in {1, 256, 65536}, i \in {j \in {n} \ {0} : p[j] # NLine}}
    \cup {[what |-> "end", i |-> n, p |-> 0, k |-> x] : x \in {"Id", "NL", "AN", "GTFO"}}
    \cup {[what |-> "down", i |-> i, p |-> 0, k |-> ""] : i \in {j \in 1..n : p[j] = NLine}}

Cut(s, i) == SubSeq(s, 1, i)
From(s, i) == SubSeq(s, i, Len(s))
Changed(p, c) ==
    CASE c.what = "kind" -> [p EXCEPT ![c.i] = c.k]
      [] c.what = "drop" -> Cut(p, c.i - 1) \o From(p, c.i + 1)
      [] c.what \in {"twice", "down"} -> Cut(p, c.i) \o From(p, c.i)
      [] c.what = "end" -> p \o (IF c.k = "NL" THEN <<"NL", "Id">> ELSE <<c.k>>)
      [] OTHER -> p

\* The payload an item has by itself: not the same for neighbours.
Own(k, i) == IF PayloadsOf(k) = 1 THEN 0 ELSE (i * 5) % PayloadsOf(k)

\* The line and, counted in tokens, the place on it of every item.
RECURSIVE Placed(_, _, _, _)
Placed(p, i, l, k) ==
    IF i > Len(p) THEN << >>
    ELSE LET after == IF p[i] = NLine THEN <<l + 1, 0>> ELSE IF p[i] \in TwoLine THEN <<l + 1, k + 1>> ELSE <<l, k + 1>>
         IN <<<<l, k>>>> \o Placed(p, i + 1, after[1], after[2])
\* c: the change where it moves something (p is already changed otherwise).  A token is 15 columns wide.
Written(p, c) ==
    LET at == Placed(p, 1, 1, 0) IN
    [i \in 1..Len(p) |->
       LET k == p[i]
           moved == c.what \in {"right", "wide"} /\ c.i < i /\ at[c.i][1] = at[i][1]
           here == c.what = "right" /\ c.i = i
           col == 1 + 20 * at[i][2] + (IF moved \/ here THEN 1 ELSE 0)
           thin == IF c.what = "thin" /\ c.i = i THEN 1 ELSE 0
           high == IF c.what = "high" /\ c.i = i THEN 1 ELSE 0
           tall == IF c.what = "tall" /\ c.i = i THEN c.p ELSE 0
           wide == IF c.what = "wide" /\ c.i = i THEN 1 ELSE 0
           pay == IF c.what = "payload" /\ c.i = i THEN (Own(k, i) + c.p) % PayloadsOf(k) ELSE Own(k, i)
       IN <<k, pay, at[i][1] - high, col + thin, at[i][1] + (IF k \in TwoLine THEN 1 ELSE 0) + tall, col + 15 + wide>>]
Tokens(p, c) == SelectSeq(Written(p, c), LAMBDA t : t[1] # NLine)

Say(b) == IF b THEN "T" ELSE "F"

\* The tree with its tokens in it.
Filled(t, toks) == [i \in 1..Len(t) |-> IF SubSeq(t[i], 1, 1) = "#" THEN toks[TokenNo(t[i])] ELSE <<t[i]>>]

-----------------------------------------------------------------------------
Init == /\ \E n \in 1..(Len(StockPrograms) + Len(Given)) : prog = IF n <= Len(StockPrograms) THEN StockPrograms[n] ELSE Given[n - Len(StockPrograms)].p
        /\ base = prog /\ edit = None
        /\ first = <<"none yet">> /\ verdict = << >> /\ phase = "type" /\ Reset
Again == /\ phase = "done" /\ first = <<"none yet">>
         /\ first' = <<"tree", out>>
         /\ LET cs == SetToSeq(Changes(base)) IN
            \E m \in {x \in 1..Len(cs) : (x + Len(base)) % Every = 0} : edit' = cs[m]
         /\ prog' = Changed(base, edit')
         /\ phase' = "type" /\ segs' = << >> /\ g' = 1 /\ frames' = << >> /\ out' = << >>
         /\ UNCHANGED <<base, verdict>>
Judge ==
    /\ phase = "done" /\ first[1] = "tree" /\ verdict = << >>
    /\ LET one == Tokens(base, None) two == Tokens(prog, edit)
           n == IF Len(one) < Len(two) THEN Len(one) ELSE Len(two)
       IN verdict' = <<one, two, [i \in 1..n |-> Say(one[i] = two[i])], Say(Filled(first[2], one) = Filled(out, two))>>
    /\ UNCHANGED <<pvars, base, edit, first>>
Next == (phase = "type" /\ Load /\ UNCHANGED svars) \/ (ParseNext /\ UNCHANGED svars) \/ Again \/ Judge
Spec == Init /\ [][Next]_<<pvars, svars>>

\* Nothing changed: the same tree.
Judged == verdict # << >>
Unchanged == (Judged /\ edit = None) => verdict[4] = "T"
\* Trees of one shape differ exactly in the tokens they keep.
Kept == (Judged /\ first[2] = out /\ Len(verdict[1]) = Len(verdict[2])) =>
    ((verdict[4] = "T") <=> \A j \in 1..Len(out) : SubSeq(out[j], 1, 1) = "#" => verdict[3][TokenNo(out[j])] = "T")

Emit == Judged => PrintT(ToJson(Append(verdict, edit.what)))
=============================================================================
