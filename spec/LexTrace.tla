------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Trace validation for the tokenizer.  Each trace is one recorded run of  *)
(* the real tokenizer: the text and what came out of it.  The trace is     *)
(* walked with the rules of Lexer.tla; Mode selects the property that      *)
(* judges it.  A walk that reaches the end prints ACCEPT, a walk that      *)
(* meets an event the specification does not allow prints REJECT.          *)
(***************************************************************************)
EXTENDS Lexer, Json

CONSTANTS TraceFile, Mode

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid,   \* which trace
          at,    \* index of the first character not explained yet
          n,     \* events explained
          p,     \* position at "at", kept by the specification
          verdict

tvars == <<tid, at, n, p, verdict>>
\* The lexer machine's own variables are not used when validating.
Unused == src = << >> /\ i = 0 /\ pos = Origin /\ toks = << >> /\ status = "trace"

T == Traces[tid]
S == T.s
E(k) == T.t[k]
Len_ == Len(S)

TraceInit == /\ tid \in 1..Len(Traces) /\ at = 1 /\ n = 0 /\ p = Origin
             /\ verdict = "" /\ Unused

Say(v) == verdict' = v /\ UNCHANGED <<tid, at, n, p>>
Move(j, m) == /\ at' = j /\ n' = n + m /\ p' = AdvanceOver(p, S, at, j)
              /\ UNCHANGED <<tid, verdict>>

-----------------------------------------------------------------------------
(* Walks led by the rules: C01, C04, C05.                                  *)

NumKind(k) == k \in {"int", "float"}
Project(kind, pay) ==
    CASE Mode = "C04" -> IF NumKind(kind) THEN <<"num", << >> >>
                         ELSE IF kind = "str" THEN <<"str", << >> >> ELSE <<kind, pay>>
      [] Mode = "C05" -> IF NumKind(kind) \/ kind \in {"str", "bool", "noob", "sym"} THEN <<kind, pay>>
                         ELSE IF kind \in {"slot", "ell", "comma", "bang", "qm"} THEN <<kind, << >> >>
                         ELSE IF kind \in {"cs", "cm"} THEN <<"comment", << >> >>
                         ELSE <<"word", << >> >>
      [] OTHER -> << >>

Agrees(t) == Project(t.kind, t.pay) = Project(E(n + 1)[1], E(n + 1)[2])

BlankRunEnd == ScanTo("nonblank", S, at, MinOf(Len_, at + 400))

RuleBlank == /\ at <= Len_ /\ IsBlank(S[at])
             /\ Move(BlankRunEnd, 0)

RuleToken ==
    /\ at <= Len_ /\ ~IsBlank(S[at])
    /\ LET t == LexAt(S, at) IN
        IF t.kind = "unclosed"
        THEN IF /\ T.st = "err"
                /\ (Mode = "C01" => /\ T.t[1][3] = p.b
                                    /\ T.t[2][3] = AdvanceOver(p, S, at, Len_ + 1).b)
             THEN Say("ACCEPT") ELSE Say("REJECT")
        ELSE IF T.st = "err" \/ Mode = "C01" THEN Move(t.end, 1)
        ELSE IF n < Len(T.t) /\ Agrees(t) THEN Move(t.end, 1)
        ELSE Say("REJECT")

RuleEnd == /\ at > Len_
           /\ IF T.st = "ok" /\ (Mode = "C01" \/ n = Len(T.t)) THEN Say("ACCEPT") ELSE Say("REJECT")

-----------------------------------------------------------------------------
(* Walks led by the recorded tokens: C02 (tiling) and C03 (positions).     *)
(* Each event must start at or after the place reached.                    *)

Kind(k) == E(k)[1]
Pay(k) == E(k)[2]
StartB(k) == E(k)[3][3]
EndB(k) == E(k)[4][3]

\* Index of the character that starts at byte b, looking from "at"; 0 if none
\* does.  The recorded character offset h says where to look first.
IndexOf(b, h) ==
    IF b < p.b THEN 0
    ELSE IF h + 1 >= at /\ h <= Len_ /\ p.b + BytesIn(S, at, h + 1) = b THEN h + 1
    ELSE IF \E j \in at..(Len_ + 1) : p.b + BytesIn(S, at, j) = b
    THEN CHOOSE j \in at..(Len_ + 1) : p.b + BytesIn(S, at, j) = b
    ELSE 0
StartH(k) == E(k)[3][4]
EndH(k) == E(k)[4][4]

Under(a, b) == SubSeq(S, a, b - 1)
HasDigitIn(a, b) == \E k \in a..(b - 1) : IsDigit(S[k])

\* The text under the token is what its type and payload say.
Matches(k, a, b) ==
    LET u == Under(a, b) pay == Pay(k) IN
    CASE Kind(k) \in {"id", "sym"} -> u = pay /\ pay # << >>
      [] Kind(k) \in KeywordKinds -> u = pay /\ pay = KwCps[KwIndex(Kind(k))]
      [] Kind(k) = "cs" -> u = WBtw \o pay /\ \A m \in 1..Len(pay) : pay[m] # NL
      [] Kind(k) = "cm" -> u = WObtw \o pay \o WTldr
      [] Kind(k) = "str" -> u = <<QUOTE>> \o pay \o <<QUOTE>>
                            \/ (u = <<QUOTE>> \o pay /\ b > Len_)
      [] Kind(k) = "bool" -> u = (IF pay = <<1>> THEN WWin ELSE WFail)
      [] Kind(k) = "noob" -> u = WNoob
      [] Kind(k) = "slot" -> u = WSlot
      [] Kind(k) = "ell" -> u = WDots \/ u = <<ELLIPSIS>>
      [] Kind(k) = "comma" -> u = <<COMMA>>
      [] Kind(k) = "bang" -> u = <<BANG>>
      [] Kind(k) = "qm" -> u = <<QM>>
      [] Kind(k) \in {"int", "float"} ->
            /\ HasDigitIn(a, b)
            /\ \A m \in 1..Len(u) : IsDigit(u[m]) \/ u[m] = DOT \/ (m = 1 /\ (u[m] = PLUS \/ u[m] = MINUS))
            /\ (Kind(k) = "float") = (\E m \in 1..Len(u) : u[m] = DOT)
      [] OTHER -> FALSE

TokenStep ==
    /\ T.st = "ok" /\ n < Len(T.t)
    /\ LET a == IndexOf(StartB(n + 1), StartH(n + 1))
           b == IndexOf(EndB(n + 1), EndH(n + 1)) IN
       IF a = 0 \/ b = 0 \/ b <= a THEN Say("REJECT")
       ELSE LET pa == AdvanceOver(p, S, at, a) pb == AdvanceOver(pa, S, a, b) IN
         IF \/ Mode = "C02" /\ ~( /\ Matches(n + 1, a, b)
                                  /\ ScanTo("nonblank", S, at, a - 1) = a )
            \/ Mode = "C03" /\ ~(E(n + 1)[3] = PosTuple(pa) /\ E(n + 1)[4] = PosTuple(pb))
         THEN Say("REJECT")
         ELSE Move(b, 1)

TokenEnd ==
    /\ T.st = "ok" /\ n = Len(T.t)
    /\ IF Mode = "C02" /\ ScanTo("nonblank", S, at, Len_) # Len_ + 1
       THEN Say("REJECT") ELSE Say("ACCEPT")

TokenErr ==
    /\ T.st = "err"
    /\ IF Mode = "C03"
       THEN LET a == IndexOf(T.t[1][3], T.t[1][4]) b == IndexOf(T.t[2][3], T.t[2][4]) IN
            IF /\ a # 0 /\ b = Len_ + 1
               /\ T.t[1] = PosTuple(AdvanceOver(p, S, at, a))
               /\ T.t[2] = PosTuple(AdvanceOver(p, S, at, b))
            THEN Say("ACCEPT") ELSE Say("REJECT")
       ELSE Say("ACCEPT")

\* No tokens at all: whatever is asked of them does not hold.
Panicked == T.st = "panic" /\ Say("REJECT")

TraceNext ==
    /\ verdict = ""
    /\ UNCHANGED lvars
    /\ IF T.st = "panic" THEN Panicked
       ELSE IF Mode \in {"C02", "C03"} THEN TokenStep \/ TokenEnd \/ TokenErr
       ELSE RuleBlank \/ RuleToken \/ RuleEnd

TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, lvars>>

Verdicts == verdict # "" => PrintT(ToJson(<<verdict, tid, n, at>>))
=============================================================================
