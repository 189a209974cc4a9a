------------------------------- MODULE LexGen -------------------------------
(***************************************************************************)
(* Explores the lexer machine on every text a typist can make of a given   *)
(* stock of fragments, and prints each text with the tokens it must give:  *)
(* the conformance vectors replayed into the real tokenizer.               *)
(***************************************************************************)
EXTENDS Lexer, Json, TLCExt

CONSTANTS Stock,   \* name of the fragment stock
          Depth    \* number of fragments typed

VARIABLE left      \* fragments the typist may still add

U(s) == Cps(s)
One(S) == {<<c>> : c \in S}

EACUTE == 233  EMOJI == 128512  COMBINING == 769  NBSP == 160  EURO == 8364

\* Single characters of every class the rules distinguish.
\* All of ASCII, and what a keyboard has that is neither letter nor digit.
AsciiStock == One(0..127)
PunctStock == One({SP, NL, 49, 65, UNDER} \cup {c \in 33..126 : ~ IsLetter(c) /\ ~ IsDigit(c)})
CharStock == One({SP, NL, TAB, CR, QUOTE, APOS, PLUS, MINUS, DOT, COMMA, COLON,
                  BANG, QM, UNDER, ELLIPSIS, EACUTE, EMOJI, 48, 49, 65, 82, 90, 97})

\* Openers and closers of the multi-character constructs.
MarkStock == {U("OBTW"), U("TLDR"), U("BTW"), U("..."), U("'Z"), U("\""), U(":\""),
              U(" "), <<NL>>, <<EACUTE>>, <<EMOJI>>, <<ELLIPSIS>>, U("12"), U("1."),
              U("-"), U("ab"), U("R"), U("I HAS A"), U(","), U("#")}

\* What positions depend on: wide characters, tabs, line breaks, long tokens.
PosStock == {<<NL>>, <<CR, NL>>, <<TAB>>, U("  "), U("xy"), U("3.25"), U("VISIBLE"),
             <<QUOTE, EACUTE, QUOTE>>, <<QUOTE, NL, 97, EMOJI, NL, QUOTE>>,
             <<QUOTE, EURO>>, U("OBTW a") \o <<NL, EACUTE, NL>> \o U(" TLDR"),
             U("OBTW"), U("BTW c") \o <<EMOJI>>, <<ELLIPSIS>>, U("..."), <<EMOJI>>,
             <<EACUTE>>, <<COMBINING>>, U("!"), U("?"), U(","), U("'Z")}

\* Characters that look like, or that some library takes for, blanks, line ends, digits,
\* letters, quotes or punctuation, next to the ones they could be taken for.
ExoticChars == {0, 8, 11, 12, 28, 31, 127, 133, 160, 170, 173, 178, 189, 215, 305, 383, 769, 837, 1632, 2406, 5760, 8203,
                8217, 8220, 8221, 8232, 8233, 8239, 8288, 8490, 8545, 9332, 12288, 12295, 12540, 19968, 44032, 57344,
                65039, 65281, 65292, 65296, 65311, 65313, 65343, 65279, 65533, 119808, 120782, 128512, 983040, 1114109}
ExoticStock == One(ExoticChars) \cup {U("a"), U("A"), U("1"), U("-"), U("."), U("\""), U(" "), <<NL>>, U("BTW"), U("_")}

\* Characters one by one, in every place that could take them for something else.
Tested == (0..8399) \cup {c \in 8400..55295 : c % 41 = 0} \cup {c \in 57344..1114111 : c % 509 = 0} \cup ExoticChars
EveryScalar == (0..55295) \cup (57344..1114111)
\* Around the character.
EachFrames == {<<U("a"), U("b")>>, <<U("1"), U(".5")>>, <<U("BTW"), U("x")>>, <<U("\"x"), U("\"")>>, <<U("HAS"), U("A")>>, <<U("R"), <<NL>>>>}

\* What can stand inside a construct that may be long, right after its opener and right
\* before its closer.
Insides == {<< >>, <<NL>>, <<CR>>, <<TAB>>, <<SP>>, <<EACUTE>>, <<EMOJI>>, <<COMMA>>, <<COLON>>, <<QUOTE>>, U("x"), U("TL"), U("BTW"), U("1"), U("#")}

\* Literals at the edges of 32-bit floats: halfway points and just beside them, in
\* the first and in a high binade, the largest and the smallest floats.
FloatStock == {U("1.000000059604644775390625"), U("1.0000000596046447753906250000001"), U("1.00000005960464477540"),
               U("1.00000005960464477539"), U("16777217.0"), U("16777217.00000000000000000000001"), U("16777219."),
               U("0.1"), U(".1"), U("0.30000001192092896"), U("33554433.9999999999999999999"), U("00.50"),
               U("340282346638528859811704183484516925440.0"), U("340282356779733661637539395458142568447.9"),
               U("340282356779733661637539395458142568448.0"), U("99999999999999999999999999999999999999999999.5"),
               U("0.000000000000000000000000000000000000011754943508222875"),
               U("0.00000000000000000000000000000000000000000000070064923216240853"),
               U("0.0000000000000000000000000000000000000000000007006492321624085354618"),
               U("0.000000000000000000000000000000000000000000000000001"), U("0.0"), U("2147483648.0"), U("123456789.125"),
               U("8388608.5"), U("8388609.5"), U("0.00000000000000000000000000000000000001"), U("9007199254740993.0")}

NumStock == {U("0"), U("7"), U("00"), U("-"), U("+"), U("."), U("..."), <<ELLIPSIS>>,
             U("2147483647"), U("2147483648"), U("2147483649"), U("99999999999"), U("4294967297"),
             U(" "), <<NL>>, U(","), U("x"), U("1e5"), U("!"), U("\""), U("'Z"), U("BTW")}

StrStock == {U("\""), U(":"), U("::"), U(":\""), U("a"), U(" "), <<NL>>, <<EACUTE>>,
             U(")"), U(":)"), U(":>"), U("\\"), U("'"), <<EMOJI>>, U("VISIBLE"), U(","),
             U("..."), U("BTW"), U("TLDR"), U(":o"), U(":{x}"), U("WIN")}

\* What other versions of the language have in strings, behind an opening quote.
Brackets == {{40, 41}, {91, 93}, {123, 125}}
EscapeStock == One(LET used == {b \in Brackets : \E k \in 1..Len(src) : src[k] \in b}
                   IN {COLON, QUOTE, 97, 52} \cup UNION (IF used = {} THEN Brackets ELSE used))

LitStock == {U("WIN"), U("FAIL"), U("NOOB"), U("WINNER"), U("FAIL_"), U("NOOB1"), U("win"),
             U(" "), <<NL>>, U(","), U("1"), U("_"), <<EACUTE>>, U("A"), U("'Z"), U("!"), U("?"), U("\"")}

\* The words keyword phrases consist of, and what can stand between words.
WordStock == {U("I"), U("HAS"), U("A"), U("AN"), U("ANY"), U("OF"), U("IM"), U("IN"), U("YR"),
              U("OUTTA"), U("IZ"), U("IS"), U("NOW"), U("BOTH"), U("SAEM"), U("O"), U("RLY"),
              U("YA"), U("NO"), U("WAI"), U("HOW"), U("IF"), U("U"), U("SAY"), U("SO"), U("FOUND"),
              U("OMG"), U("WTF"), U("OMGWTF"), U("SUM"), U("ALL"), U("NOT"), U("R"), U("ITZ"), U("x")}
SpacedWords == {w \o <<SP>> : w \in WordStock} \cup {U("  "), <<NL>>, U("HAS"), U("IN"), U("YA")}

GapStock == {<< >>, <<SP>>, <<NL>>, <<TAB>>, U(","), U("!"), U("?"), U("..."), U("'Z"), U("1"), U("_"),
             U("X"), U("z"), <<EACUTE>>, <<ELLIPSIS>>, U("\""), U("-"), U("."), U(" AN"), U(" 7"), U("S"),
             U(" BTW"), U(" x"), U(" OF")}
HeadStock == {<< >>, <<SP>>, U("x "), U("7"), U("_"), U("a"), U(","), U("'Z"), <<EACUTE>>, U("\"\""),
              U("A "), U("..."), <<NL>>, U("R "), U("-"), U("I ")}
\* Every keyword, also damaged in the ways that make it no keyword (or another one).
Damaged(k) == {k, SubSeq(k, 1, Len(k) - 1), SubSeq(k, 2, Len(k))}
   \cup {[m \in 1..Len(k) |-> IF k[m] = SP THEN s ELSE k[m]] : s \in {TAB, UNDER, NL}}
   \cup {[m \in 1..Len(k) |-> IF m = n /\ IsLetter(k[m]) THEN k[m] + 32 ELSE k[m]] : n \in {1, Len(k)}}
   \cup {SubSeq(k, 1, n) \o <<SP>> \o SubSeq(k, n + 1, Len(k)) : n \in {m \in 1..Len(k) : k[m] = SP}}
\* The same, damaged in the whole.
Respelt(k) ==
   {[m \in 1..Len(k) |-> IF IsLetter(k[m]) /\ (m > 1 \/ n = 1) THEN k[m] + 32 ELSE k[m]] : n \in {1, 2}}
   \cup {[m \in 1..Len(k) |-> IF IsLetter(k[m]) /\ m > 1 /\ k[m - 1] # SP THEN k[m] + 32 ELSE k[m]]}
   \cup {[m \in 1..Len(k) |-> IF k[m] = SP THEN MINUS ELSE k[m]], SelectSeq(k, LAMBDA c : c # SP), k \o k}
\* What is no keyword, though other versions of the language, or plain English, have it.
Aliases == {U("PRODUCT OF"), U("QUOTIENT OF"), U("DIFFERENCE OF"), U("BIGGER OF"), U("SMALLER OF"), U("BOTH SAME"),
            U("DIFFERENT"), U("WHILE"), U("UNTIL"), U("NUMBER"), U("BUCKET"), U("HOW DUZ I"), U("IS NOW A"), U("CAN HAS"),
            U("KTHX"), U("KTHXBAI"), U("LIEK"), U("LETTR"), U("DUZ"), U("HAS AN"), U("I HAS AN"), U("IZ"), U("TRUE"), U("FALSE"),
            U("NULL"), U("IT"), U("ME"), U("O HAI IM"), U("IM OUTTA"), U("FOUND"), U("NO"), U("YARNS"), U("AND"), U("OR"),
            U("AN YR"), U("A"), U("ITZ A"), U("ITZ LIEK A"), U("MEBE"), U("GIMME"), U("VISABLE"), U("INVISIBLE"), U("SMOOSHED")}
KwForms == UNION {Damaged(KwCps[k]) : k \in 1..NKw}
NoKwForms == UNION {Respelt(KwCps[k]) : k \in 1..NKw} \cup Aliases

StockAt(n) ==
    CASE Stock = "chars" -> CharStock
      [] Stock = "marks" -> MarkStock
      [] Stock = "ascii" -> AsciiStock
      [] Stock = "punct" -> PunctStock
      [] Stock = "pos"   -> PosStock
      [] Stock = "exotic" -> ExoticStock
      [] Stock = "float" -> IF n = 1 THEN {<< >>, U("-"), U("+"), U("x "), U("0")} ELSE IF n = 2 THEN FloatStock
                            ELSE {<< >>, <<SP>>, U("..."), U("."), U("e5"), U("0"), U("1"), <<NL>>, <<ELLIPSIS>>, U(",")}
      [] Stock \in {"each", "all"} -> {f[1] \o <<c>> \o f[2] : f \in (IF Stock = "all" THEN {<<U("a"), U("b")>>} ELSE EachFrames), c \in (IF Stock = "all" THEN EveryScalar ELSE Tested)}
      [] Stock = "inside" -> IF n = 1 THEN {U("OBTW"), U("BTW"), U("\""), U("...")}
                             ELSE IF n < Depth THEN Insides
                             ELSE {U("TLDR x"), U("\" x"), <<NL>> \o U("x"), << >>}
      [] Stock = "num"   -> NumStock
      [] Stock = "str"   -> StrStock
      [] Stock = "escape" -> IF n = 1 THEN {<<QUOTE>>} ELSE EscapeStock
      [] Stock = "lit"   -> LitStock
      [] Stock = "words" -> SpacedWords
      [] Stock = "kwctx" -> IF n = 1 THEN HeadStock ELSE IF n = 2 THEN KwForms ELSE GapStock
      [] Stock = "respelt" -> IF n = 1 THEN {<< >>, U("x "), <<COMMA>>} ELSE IF n = 2 THEN NoKwForms ELSE {<< >>, <<SP>>, U("1"), <<NL>>, U("?")}
      [] Stock = "kwend" -> IF n = 1 THEN {KwCps[k] : k \in 1..NKw} \cup {U("x"), U("1"), U("...")} ELSE AsciiStock \cup One(ExoticChars)
      [] Stock = "kwpair" -> IF n = 2 THEN {<<SP>>, << >>, <<COMMA>>} ELSE {KwCps[k] : k \in 1..NKw}

GenInit == /\ src = << >> /\ left = Depth
           /\ i = 1 /\ pos = Origin /\ toks = << >> /\ status = "type"

Type == /\ status = "type" /\ left > 0
        /\ \E f \in StockAt(Depth - left + 1) : src' = src \o f
        /\ left' = left - 1
        /\ UNCHANGED <<i, pos, toks, status>>

Begin == /\ status = "type" /\ (left = 0 \/ Stock \notin {"inside", "kwctx", "kwend", "kwpair", "respelt", "float", "each", "all"})
         /\ status' = "run" /\ left' = 0
         /\ UNCHANGED <<src, i, pos, toks>>

GenNext == Type \/ Begin \/ (LexNext /\ UNCHANGED left)

GenSpec == GenInit /\ [][GenNext]_<<lvars, left>>

Emit == status \in {"ok", "err"} => PrintT(ToJson(<<src, status, toks>>))
=============================================================================
