------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of calls into the library from several threads.  A call       *)
(* starts and returns; calls of different threads overlap in every way.    *)
(* The library keeps nothing between calls: what a call returns is a       *)
(* function of what it is given, and parsing a text is tokenizing it and   *)
(* parsing the tokens.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, NArgs, MaxCalls,
          Full,     \* print only histories of MaxCalls calls
          Near,     \* how far apart the arguments of calls that follow each other are; 0: any
          Repeats   \* how often a call is made before its result is looked at

Args == 1..NArgs
Ops == {"tokenize", "parse", "both"}
Idle == [op |-> "idle", arg |-> 0, times |-> 0]

VARIABLES busy,     \* what each thread is doing
          hist,     \* events: <<"start", thread, op, arg, times>>, <<"end", thread, op, arg, times>>
          results,  \* returned so far: <<op, arg, value>>
          calls
vars == <<busy, hist, results, calls>>

\* Values are what the functions stand for; only their equality matters.
Tokens(a) == <<"tokens", a>>
TreeOf(ts) == <<"tree", ts>>
Value(op, a) == CASE op = "tokenize" -> Tokens(a)
                  [] op = "parse" -> TreeOf(Tokens(a))
                  [] op = "both" -> TreeOf(Tokens(a))

Init == busy = [t \in Threads |-> Idle] /\ hist = << >> /\ results = {} /\ calls = 0

Distance(x, y) == IF x < y THEN y - x ELSE x - y
\* The arguments a call may have now.
Reach(a) == IF Near = 0 \/ hist = << >> THEN TRUE ELSE Distance(a, hist[Len(hist)][4]) <= Near
\* A history that looks at neighbours makes the same kind of call, once repeated.
SameOp(op) == IF Near = 0 \/ hist = << >> THEN TRUE ELSE hist[Len(hist)][3] = op

Start(t) == /\ busy[t] = Idle /\ calls < MaxCalls
            /\ \E op \in Ops, a \in Args, k \in Repeats :
                 /\ Reach(a) /\ SameOp(op)
                 /\ busy' = [busy EXCEPT ![t] = [op |-> op, arg |-> a, times |-> k]]
                 /\ hist' = Append(hist, <<"start", t, op, a, k>>)
            /\ calls' = calls + 1 /\ UNCHANGED results
End(t) == /\ busy[t] # Idle
          /\ LET b == busy[t] IN
               /\ hist' = Append(hist, <<"end", t, b.op, b.arg, b.times>>)
               /\ results' = results \cup {<<b.op, b.arg, Value(b.op, b.arg)>>}
          /\ busy' = [busy EXCEPT ![t] = Idle] /\ UNCHANGED calls
Next == \E t \in Threads : Start(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Quiet == \A t \in Threads : busy[t] = Idle
\* One value per function and argument, whatever the history; composition.
Functional == \A x, y \in results : (x[1] = y[1] /\ x[2] = y[2]) => x[3] = y[3]
Composed == \A x, y \in results : (x[1] = "both" /\ y[1] = "parse" /\ x[2] = y[2]) => x[3] = y[3]
OneCall == \A t \in Threads :
    Cardinality({k \in 1..Len(hist) : hist[k][1] = "start" /\ hist[k][2] = t})
      - Cardinality({k \in 1..Len(hist) : hist[k][1] = "end" /\ hist[k][2] = t}) = (IF busy[t] = Idle THEN 0 ELSE 1)

Emit == (Quiet /\ (IF Full THEN calls = MaxCalls ELSE calls > 0)) => PrintT(ToJson(hist))
=============================================================================
