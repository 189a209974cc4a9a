------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The tokenizer as a state machine: one action per lexical rule.  The     *)
(* state is the position reached in the text and the tokens found so far.  *)
(* Which rule applies at an index is a function of the text alone.         *)
(***************************************************************************)
EXTENDS Keywords, TLC

WBtw == Cps("BTW")     WObtw == Cps("OBTW")   WTldr == Cps("TLDR")
WWin == Cps("WIN")     WFail == Cps("FAIL")   WNoob == Cps("NOOB")
WSlot == Cps("'Z")     WDots == Cps("...")

(***************************************************************************)
(* Numbers: an optional sign, digits and at most one dot; the first dot of *)
(* a continuation ellipsis does not belong to the number.                  *)
(***************************************************************************)
HasSign(src, i) == src[i] = PLUS \/ src[i] = MINUS
DigitsStart(src, i) == IF HasSign(src, i) THEN i + 1 ELSE i

DigitsEnd(src, j) == ScanTo("nondigit", src, j, Len(src))

NumScan(src, i) ==
    LET a == DigitsEnd(src, DigitsStart(src, i))
        dot == a <= Len(src) /\ src[a] = DOT /\ ~StartsWith(src, a, WDots)
    IN IF dot THEN [end |-> DigitsEnd(src, a + 1), dot |-> TRUE]
              ELSE [end |-> a, dot |-> FALSE]

HasDigit(src, i, j) == \E k \in i..(j - 1) : IsDigit(src[k])

\* Significant digits (leading zeros dropped) of a run of digits.
SigDigits(src, i, j) ==
    LET s == ScanTo("nonzero", src, i, j - 1)
    IN [k \in 1..(j - s) |-> src[s + k - 1] - 48]

MaxMag == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
MinMag == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>

LeqDigits(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E k \in 1..Len(a) : a[k] < b[k] /\ \A m \in 1..(k - 1) : a[m] = b[m]

InRange(src, i, j) ==
    LeqDigits(SigDigits(src, DigitsStart(src, i), j),
              IF src[i] = MINUS THEN MinMag ELSE MaxMag)

RECURSIVE ValueOf(_, _, _)
ValueOf(ds, n, sg) == IF n = 0 THEN 0 ELSE ValueOf(ds, n - 1, sg) * 10 + sg * ds[n]

IntValue(src, i, j) ==
    LET ds == SigDigits(src, DigitsStart(src, i), j)
    IN ValueOf(ds, Len(ds), IF src[i] = MINUS THEN -1 ELSE 1)

(***************************************************************************)
(* Strings: a colon escapes a quote or a colon; a string that is never     *)
(* closed runs to the end of the text.  j is the index after the opening   *)
(* quote; the result is the index of the closing quote or Len(src)+1.      *)
(***************************************************************************)
RECURSIVE CloseQuote(_, _)
CloseQuote(src, j) ==
    LET k == ScanTo("quoting", src, j, Len(src))
    IN IF k > Len(src) THEN Len(src) + 1
       ELSE IF src[k] = QUOTE THEN k
       ELSE IF k < Len(src) /\ (src[k + 1] = QUOTE \/ src[k + 1] = COLON)
            THEN CloseQuote(src, k + 2)
       ELSE CloseQuote(src, k + 1)

LineEnd(src, i) == ScanTo("newline", src, i, Len(src))
WordEnd(src, i) == ScanTo("nonword", src, i, Len(src))
\* Index of the first TLDR at or after i; Len(src)+1 if there is none.
TldrAt(src, i) == ScanTo("tldr", src, i, Len(src))

(***************************************************************************)
(* The rule that applies at index i, in order of precedence.  Each rule    *)
(* gives the kind of token, the index after it, and its payload.           *)
(***************************************************************************)
Tok(kind, end, pay) == [kind |-> kind, end |-> end, pay |-> pay]

LexAt(src, i) ==
    LET c == src[i] IN
    CASE IsBlank(c) -> Tok("blank", i + 1, << >>)
      [] c = COMMA -> Tok("comma", i + 1, << >>)
      [] c = BANG  -> Tok("bang", i + 1, << >>)
      [] c = QM    -> Tok("qm", i + 1, << >>)
      [] StartsWith(src, i, WBtw) ->
            LET e == LineEnd(src, i) IN Tok("cs", e, SubSeq(src, i + 3, e - 1))
      [] StartsWith(src, i, WObtw) ->
            LET t == TldrAt(src, i + 4)
            IN IF t > Len(src) THEN Tok("unclosed", Len(src) + 1, << >>)
               ELSE Tok("cm", t + 4, SubSeq(src, i + 4, t - 1))
      [] StartsWith(src, i, WSlot) -> Tok("slot", i + 2, << >>)
      [] StartsWith(src, i, WDots) -> Tok("ell", i + 3, << >>)
      [] c = ELLIPSIS -> Tok("ell", i + 1, << >>)
      [] WholeWord(src, i, WWin)  -> Tok("bool", i + 3, <<1>>)
      [] WholeWord(src, i, WFail) -> Tok("bool", i + 4, <<0>>)
      [] WholeWord(src, i, WNoob) -> Tok("noob", i + 4, << >>)
      [] KwAt(src, i) # {} ->
            LET k == CHOOSE k \in KwAt(src, i) : TRUE
            IN Tok(KwNames[k], i + Len(KwCps[k]), KwCps[k])
      [] IsDigit(c) \/ ((HasSign(src, i) \/ c = DOT)
                        /\ HasDigit(src, i, NumScan(src, i).end)) ->
            LET s == NumScan(src, i)
            IN IF s.dot THEN Tok("float", s.end, SubSeq(src, i, s.end - 1))
               ELSE IF InRange(src, i, s.end)
                    THEN Tok("int", s.end, <<IntValue(src, i, s.end)>>)
                    ELSE Tok("sym", s.end, SubSeq(src, i, s.end - 1))
      [] c = QUOTE ->
            LET q == CloseQuote(src, i + 1)
            IN Tok("str", IF q > Len(src) THEN q ELSE q + 1, SubSeq(src, i + 1, q - 1))
      [] IsLetter(c) \/ c = UNDER ->
            LET e == WordEnd(src, i) IN Tok("id", e, SubSeq(src, i, e - 1))
      [] OTHER -> Tok("sym", i + 1, <<c>>)

KeywordKinds == {KwNames[k] : k \in 1..NKw}

-----------------------------------------------------------------------------
(***************************************************************************)
(* The machine.  src is chosen once; the rest is determined.               *)
(***************************************************************************)
VARIABLES src,    \* the text
          i,      \* index of the first character not consumed yet
          pos,    \* its position, kept incrementally
          toks,   \* tokens found: kind, payload, start, end (position tuples)
          status  \* "run", "ok" or "err"

lvars == <<src, i, pos, toks, status>>

InitOn(texts) ==
    /\ src \in texts
    /\ i = 1 /\ pos = Origin /\ toks = << >> /\ status = "run"

Running == status = "run" /\ i <= Len(src)

\* Consume the token t at i.
Take(t) ==
    LET p == AdvanceOver(pos, src, i, t.end)
    IN /\ i' = t.end
       /\ pos' = p
       /\ toks' = Append(toks, <<t.kind, t.pay, PosTuple(pos), PosTuple(p)>>)
       /\ UNCHANGED <<src, status>>

Rule(kinds) == Running /\ LexAt(src, i).kind \in kinds /\ Take(LexAt(src, i))

SkipBlank == /\ Running /\ LexAt(src, i).kind = "blank"
             /\ i' = i + 1 /\ pos' = AdvanceChar(pos, src[i])
             /\ UNCHANGED <<src, toks, status>>
LexPunct   == Rule({"comma", "bang", "qm"})
LexSlot    == Rule({"slot"})
LexEllipsis == Rule({"ell"})
LexLineComment  == Rule({"cs"})
LexBlockComment == Rule({"cm"})
LexLiteralWord == Rule({"bool", "noob"})
LexKeyword == Rule(KeywordKinds)
LexNumber  == Rule({"int", "float"})
LexString  == Rule({"str"})
LexName    == Rule({"id"})
LexSymbol  == Rule({"sym"})
\* A block comment that is never closed ends the run; the error spans the rest.
LexUnclosed ==
    /\ Running /\ LexAt(src, i).kind = "unclosed"
    /\ toks' = <<PosTuple(pos), PosTuple(AdvanceOver(pos, src, i, Len(src) + 1))>>
    /\ status' = "err"
    /\ UNCHANGED <<src, i, pos>>
Finish == /\ status = "run" /\ i > Len(src)
          /\ status' = "ok" /\ UNCHANGED <<src, i, pos, toks>>

LexNext == \/ SkipBlank \/ LexPunct \/ LexSlot \/ LexEllipsis
           \/ LexLineComment \/ LexBlockComment \/ LexLiteralWord \/ LexKeyword
           \/ LexNumber \/ LexString \/ LexName \/ LexSymbol
           \/ LexUnclosed \/ Finish

-----------------------------------------------------------------------------
(***************************************************************************)
(* What the machine must satisfy (checked by TLC on every explored text).  *)
(***************************************************************************)
\* C03: positions kept incrementally are the counted ones.
TruePositions == pos = CountedPos(src, i)

\* C02: tokens are disjoint, in order, non-empty; between them only blanks.
Gap(a, b) == \A k \in (a + 1)..b : IsBlank(src[k])     \* characters a..b-1 (0-based)
Tiles ==
    status # "err" =>
      /\ \A n \in 1..Len(toks) : toks[n][3][4] < toks[n][4][4]
      /\ \A n \in 1..(Len(toks) - 1) : toks[n][4][4] <= toks[n + 1][3][4]
                                       /\ Gap(toks[n][4][4], toks[n + 1][3][4])
      /\ IF toks = << >> THEN Gap(0, i - 1)
         ELSE Gap(0, toks[1][3][4]) /\ Gap(toks[Len(toks)][4][4], i - 1)

\* C04: a name is a maximal word and never a keyword phrase; a keyword ends
\* at a word boundary.
Words ==
    status = "ok" =>
      \A n \in 1..Len(toks) :
        LET k == toks[n][1] a == toks[n][3][4] + 1 b == toks[n][4][4] + 1 IN
          /\ k = "id" => /\ WordEndsAt(src, b)
                         /\ ~IsDigit(src[a])
                         /\ \A m \in a..(b - 1) : IsWordCh(src[m])
                         /\ \A q \in 1..NKw : KwCps[q] # SubSeq(src, a, b - 1)
          /\ k \in KeywordKinds \cup {"bool", "noob"} => WordEndsAt(src, b)

\* C05: an integer prints back to its digits (sign and leading zeros aside).
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
IntegersExact ==
    status = "ok" =>
      \A n \in 1..Len(toks) : toks[n][1] = "int" =>
        LET v == toks[n][2][1]
            sd == SigDigits(src, DigitsStart(src, toks[n][3][4] + 1), toks[n][4][4] + 1)
        IN IF sd = << >> THEN v = 0
           ELSE IF v > 0 THEN Digits(v) = sd
           ELSE IF v = -2147483647 - 1 THEN sd = MinMag
           ELSE v # 0 /\ Digits(-v) = sd

\* C01: the machine can always step until it is done, and every step but
\* the last one consumes text.
Progress == status = "run" => (i > Len(src) \/ ENABLED LexNext)
ErrorIff == /\ status = "err" => /\ StartsWith(src, i, WObtw)
                                 /\ \A k \in (i + 4)..Len(src) : ~StartsWith(src, k, WTldr)
            /\ status = "ok" => \A n \in 1..Len(toks) : toks[n][1] # "unclosed"
=============================================================================
