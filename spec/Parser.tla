------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser as a state machine over statements: one action per way a     *)
(* statement can be taken.  Open constructs are kept on a stack; the tree  *)
(* is written to out as it is recognised, and cut back when the construct  *)
(* being written turns out to be malformed.                                *)
(***************************************************************************)
EXTENDS Stmt, Layout

VARIABLES
    prog,    \* the program: items
    segs,    \* its statements
    g,       \* number of the statement to be read
    frames,  \* open constructs, innermost last
    out,     \* the tree so far
    phase    \* "type" (program being written), "run", "done"

pvars == <<prog, segs, g, frames, out, phase>>

OpenerKinds == {"HOW_IZ_I", "IM_IN_YR", "O_RLY", "WTF"}
NodeName == [HOW_IZ_I |-> "howizi", IM_IN_YR |-> "iminyr", O_RLY |-> "orly", WTF |-> "wtf"]
\* A body ends before a statement that starts with one of these.
StopKinds == [HOW_IZ_I |-> {"IF_U_SAY_SO"}, IM_IN_YR |-> {"IM_OUTTA_YR"},
              O_RLY |-> {"MEBBE", "NO_WAI", "YA_RLY", "OIC"}, WTF |-> {"OMG", "OMGWTF", "OIC"}]
CloserKind == [HOW_IZ_I |-> "IF_U_SAY_SO", IM_IN_YR |-> "IM_OUTTA_YR", O_RLY |-> "OIC", WTF |-> "OIC"]
\* Sections that may open at each stage, and the stage they lead to.
Opens(c, stage) ==
    CASE c = "O_RLY" -> (IF stage = 0 THEN {"YA_RLY", "MEBBE", "NO_WAI"}
                         ELSE IF stage = 1 THEN {"MEBBE", "NO_WAI"} ELSE {})
      [] c = "WTF" -> (IF stage = 2 THEN {} ELSE {"OMG", "OMGWTF"})
      [] OTHER -> {}
StageAfter(k) == IF k \in {"NO_WAI", "OMGWTF"} THEN 2 ELSE 1

\* Statements with their kinds.
Statements(items) ==
    LET toks == TokensOf(items) ss == SegmentsOf(toks)
    IN [n \in 1..Len(ss) |-> [o |-> ss[n], k |-> [m \in 1..Len(ss[n]) |-> toks[ss[n][m]].k]]]

Reset == /\ segs = << >> /\ g = 1 /\ frames = << >> /\ out = << >>

Load == /\ segs' = Statements(prog) /\ g' = 1 /\ frames' = << >> /\ out' = << >> /\ phase' = "run"
        /\ UNCHANGED prog

S == segs[g]
Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
Inside == frames # << >>
Running == phase = "run"
Reading == Running /\ g <= Len(segs)
InBody == IF Inside THEN Top.body ELSE TRUE
\* The innermost construct's body goes on with this statement.
BodyGoesOn == Reading /\ InBody /\ (IF Inside THEN K(S, 1) \notin StopKinds[Top.c] ELSE TRUE)

Write(e) == out' = out \o e
NextStatement == g' = g + 1
Keep == UNCHANGED <<prog, segs, phase>>

\* The body of a section closes when its construct goes on; an empty body leaves no trace.
CloseBody(t) == IF t[Len(t)] = "(astblock" THEN SubSeq(t, 1, Len(t) - 1) ELSE Append(t, ")")

TakeSimple ==
    /\ BodyGoesOn /\ K(S, 1) \notin OpenerKinds
    /\ Write(NodesOf(S)) /\ NextStatement /\ UNCHANGED frames /\ Keep

\* A header is complete only if nothing is left over behind it.
HeaderError(r) == IF ~r.ok THEN ErrorNode(r.e) \o LeftOver(S, r.n) ELSE LeftOver(S, r.n)

OpenConstruct ==
    /\ BodyGoesOn /\ K(S, 1) \in OpenerKinds
    /\ LET c == K(S, 1) r == Header(S) hasBody == c \in {"HOW_IZ_I", "IM_IN_YR"} IN
         /\ r.ok /\ r.n > Len(S.k)
         /\ frames' = Append(frames, [c |-> c, head |-> T(S, 1), mark |-> Len(out), stage |-> 0,
                                      body |-> hasBody])
         /\ Write(<<"(" \o NodeName[c]>> \o r.e \o (IF hasBody THEN <<"(astblock">> ELSE << >>))
    /\ NextStatement /\ Keep

OpenFails ==
    /\ BodyGoesOn /\ K(S, 1) \in OpenerKinds
    /\ LET r == Header(S) IN
         /\ ~r.ok \/ r.n <= Len(S.k)
         /\ Write(HeaderError(r))
    /\ NextStatement /\ UNCHANGED frames /\ Keep

\* A statement that starts with a stop word ends the body; the statement itself is not read yet.
BodyEnds ==
    /\ Reading /\ Inside /\ Top.body /\ K(S, 1) \in StopKinds[Top.c]
    /\ frames' = Append(Below, [Top EXCEPT !.body = FALSE])
    /\ out' = CloseBody(out)
    /\ UNCHANGED g /\ Keep

Awaiting == Reading /\ Inside /\ ~Top.body

\* The innermost construct is malformed: it becomes one error (and what is left over of the statement).
Abandon(e) ==
    /\ out' = SubSeq(out, 1, Top.mark) \o e
    /\ frames' = Below

OpenSection ==
    /\ Awaiting /\ K(S, 1) \in Opens(Top.c, Top.stage)
    /\ LET r == SectionHead(S) IN
         IF r.ok /\ r.n > Len(S.k)
         THEN /\ frames' = Append(Below, [Top EXCEPT !.stage = StageAfter(K(S, 1)), !.body = TRUE])
              /\ Write(r.e \o <<"(astblock">>)
         ELSE Abandon(HeaderError(r))
    /\ NextStatement /\ Keep

CloseConstruct ==
    /\ Awaiting /\ K(S, 1) = CloserKind[Top.c]
    /\ IF Top.c = "IM_IN_YR"
       THEN IF K(S, 2) = "Id"
            THEN Write(<<T(S, 2), ")">> \o LeftOver(S, 3)) /\ frames' = Below
            ELSE IF K(S, 2) = "END"
            THEN Abandon(ErrorNode(Leaf2("iminyr", "missingendlabel", T(S, 1))))
            ELSE Abandon(ErrorNode(Leaf2("iminyr", "invalidendlabel", T(S, 2))) \o LeftOver(S, 3))
       ELSE Write(<<")">> \o LeftOver(S, 2)) /\ frames' = Below
    /\ NextStatement /\ Keep

\* Neither a section that may open here nor the closer.
WrongSection ==
    /\ Awaiting /\ K(S, 1) \notin Opens(Top.c, Top.stage) /\ K(S, 1) # CloserKind[Top.c]
    /\ Abandon(ErrorNode(Leaf("unexpectedtoken", T(S, 1))) \o LeftOver(S, 2))
    /\ NextStatement /\ Keep

\* The program ends inside a construct.
Unclosed ==
    /\ Running /\ g > Len(segs) /\ Inside
    /\ Abandon(ErrorNode(IF Top.c = "IM_IN_YR" THEN Leaf2("iminyr", "missingimouttayr", Top.head)
                         ELSE Leaf("missingblockclosingtoken", Top.head)))
    /\ UNCHANGED g /\ Keep

Finish == /\ Running /\ g > Len(segs) /\ ~Inside
          /\ phase' = "done" /\ UNCHANGED <<prog, segs, g, frames, out>>

ParseNext == \/ TakeSimple \/ OpenConstruct \/ OpenFails \/ BodyEnds \/ OpenSection
             \/ CloseConstruct \/ WrongSection \/ Unclosed \/ Finish

Tree == Wrap("astblock", out)

-----------------------------------------------------------------------------
(***************************************************************************)
(* What the machine must satisfy.                                          *)
(***************************************************************************)
\* C06: whatever the program, there is a next step until the end, and every
\* step consumes a statement, leaves a body or abandons a construct.
Total == (Running => ENABLED ParseNext) /\ (phase = "done" => g = Len(segs) + 1)
Measure == 4 * (Len(segs) + 1 - g) + 2 * Len(frames) + Cardinality({i \in 1..Len(frames) : frames[i].body})

\* The tree is well bracketed: as many constructs and bodies open as the stack says.
Opening(ev) == SubSeq(ev, 1, 1) = "("
Balance(t) == Cardinality({i \in 1..Len(t) : Opening(t[i])}) - Cardinality({i \in 1..Len(t) : t[i] = ")"})
Bracketed == Balance(out) = Len(frames) + Cardinality({i \in 1..Len(frames) : frames[i].body})

\* Tokens appear in the tree at most once and in source order.
TokenEvents(t) == SelectSeq(t, LAMBDA ev : SubSeq(ev, 1, 1) = "#")
Opened(t) == SelectSeq(t, LAMBDA ev : SubSeq(ev, 1, 1) = "(")
RECURSIVE ToNat(_, _)
Digit == [d \in {"0","1","2","3","4","5","6","7","8","9"} |-> (CHOOSE n \in 0..9 : ToString(n) = d)]
ToNat(ev, n) == IF n = 1 THEN 0 ELSE 10 * ToNat(ev, n - 1) + Digit[SubSeq(ev, n, n)]
TokenNo(ev) == ToNat(ev, Len(ev))
HasErrors(t) == \E i \in 1..Len(t) : t[i] = "(asterror"
\* In an error-free tree tokens come in strictly increasing order.
InOrder == ~HasErrors(out) =>
    LET ts == TokenEvents(out) IN \A i \in 1..(Len(ts) - 1) : TokenNo(ts[i]) < TokenNo(ts[i + 1])
=============================================================================
