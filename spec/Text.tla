-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts as sequences of Unicode code points, character classes, and       *)
(* source positions.  Everything the lexer specification says about text   *)
(* is said with these operators.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, k, k) : k \in 1..95} |->
             31 + (CHOOSE k \in 1..95 : SubSeq(Ascii, k, k) = c)]

\* Code points of an ASCII string.
Cps(s) == [k \in 1..Len(s) |-> CodeOf[SubSeq(s, k, k)]]

TAB == 9   NL == 10   CR == 13   SP == 32   QUOTE == 34   APOS == 39
PLUS == 43   COMMA == 44   MINUS == 45   DOT == 46   COLON == 58
QM == 63   BANG == 33   UNDER == 95   ELLIPSIS == 8230

IsDigit(c)  == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsWordCh(c) == IsLetter(c) \/ IsDigit(c) \/ c = UNDER
IsBlank(c)  == c = SP \/ c = TAB \/ c = CR \/ c = NL

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
              ELSE IF c < 65536 THEN 3 ELSE 4

MinOf(a, b) == IF a < b THEN a ELSE b

StartsWith(src, i, p) ==
    /\ i + Len(p) - 1 <= Len(src)
    /\ \A k \in 1..Len(p) : src[i + k - 1] = p[k]

WordEndsAt(src, j) == j > Len(src) \/ ~IsWordCh(src[j])

WholeWord(src, i, p) == StartsWith(src, i, p) /\ WordEndsAt(src, i + Len(p))

(***************************************************************************)
(* First index j in i..n with Stop(cls, src, j), or n+1.                   *)
(***************************************************************************)
Tldr == Cps("TLDR")

Stop(cls, src, k) ==
    CASE cls = "nonblank" -> ~IsBlank(src[k])
      [] cls = "nondigit" -> ~IsDigit(src[k])
      [] cls = "nonword"  -> ~IsWordCh(src[k])
      [] cls = "nonzero"  -> src[k] # 48
      [] cls = "newline"  -> src[k] = NL
      [] cls = "quoting"  -> src[k] = QUOTE \/ src[k] = COLON
      [] cls = "tldr"     -> src[k] = 84 /\ StartsWith(src, k, Tldr)

ScanTo(cls, src, i, n) ==
    IF \E j \in i..n : Stop(cls, src, j)
    THEN CHOOSE j \in i..n : Stop(cls, src, j) /\ \A k \in i..(j - 1) : ~Stop(cls, src, k)
    ELSE n + 1

(***************************************************************************)
(* Positions.  l, c count lines and columns from 1; b, h count bytes and   *)
(* characters from 0.                                                      *)
(***************************************************************************)
Origin == [l |-> 1, c |-> 1, b |-> 0, h |-> 0]

AdvanceChar(p, ch) ==
    [l |-> IF ch = NL THEN p.l + 1 ELSE p.l,
     c |-> IF ch = NL THEN 1 ELSE p.c + 1,
     b |-> p.b + Utf8Len(ch),
     h |-> p.h + 1]

Wider(src, i, j, w) == Cardinality({k \in i..(j - 1) : src[k] >= w})
BytesIn(src, i, j) == (j - i) + Wider(src, i, j, 128) + Wider(src, i, j, 2048) + Wider(src, i, j, 65536)

\* Position after the characters i..j-1, starting from p at i.
AdvanceOver(p, src, i, j) ==
    IF i >= j THEN p
    ELSE LET nls == Cardinality({k \in i..(j - 1) : src[k] = NL})
             \* characters after the last newline
             tail == IF nls = 0 THEN j - i
                     ELSE CHOOSE m \in 0..(j - i - 1) :
                            src[j - 1 - m] = NL /\ \A q \in 0..(m - 1) : src[j - 1 - q] # NL
         IN [l |-> p.l + nls,
             c |-> IF nls = 0 THEN p.c + tail ELSE 1 + tail,
             b |-> p.b + BytesIn(src, i, j),
             h |-> p.h + (j - i)]

Advance(p, txt) == AdvanceOver(p, txt, 1, Len(txt) + 1)

(***************************************************************************)
(* The same position by counting through the whole text one character at a *)
(* time: the reference against which position keeping is checked.          *)
(***************************************************************************)
RECURSIVE CountedPos(_, _)
CountedPos(src, i) == IF i = 1 THEN Origin ELSE AdvanceChar(CountedPos(src, i - 1), src[i - 1])

PosTuple(p) == <<p.l, p.c, p.b, p.h>>
=============================================================================
