-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Construction of a presolver: which memory is allocated when and by whom *)
(* it is owned, with a second thread that builds one half, and with any    *)
(* set of allocations failing.                                             *)
(*                                                                         *)
(* An object is one allocation of the constructor (or a group that one of  *)
(* its helpers allocates and releases as a whole).  Each thread works off  *)
(* a list of steps; a step allocates one object, and reads and writes      *)
(* others.  Steps of both threads interleave in every order.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxFailures  \* how many allocations may fail

VARIABLES todo,   \* thread -> steps still to come
          busy,   \* thread -> the step it is in the middle of, if any
          live,   \* objects allocated and not released
          owner,  \* object -> the object that will release it, or "caller", or "locals"
          freed,  \* objects that have been released, with how often
          fails,  \* allocations that have failed so far
          spawned,\* "no", "yes", "failed", "joined"
          result  \* "none", "null", "built"
vars == <<todo, busy, live, owner, freed, fails, spawned, result>>

First == <<"lhs", "rhs", "c", "coltags", "bounds", "work", "rowsizes", "colsizes">>
Helper == <<"rowtags", "fillbounds", "locks", "activities", "countrows">>
Main1 == First \o <<"check", "A", "check", "spawn", "AT", "countcols", "join", "check",
                    "state", "check", "constraints", "check", "presolver", "check", "obj", "check", "prob", "check",
                    "stats", "reduced", "check", "sol", "check", "x", "y", "z", "check", "return">>
NoObject == {"check", "spawn", "join", "return", "fillbounds", "countrows", "countcols"}
Objects == ({First[k] : k \in DOMAIN First} \cup {Helper[k] : k \in DOMAIN Helper} \cup {Main1[k] : k \in DOMAIN Main1}) \ NoObject

\* what a step reads and writes besides the object it allocates (the caller's arrays are only read)
Reads(s) == CASE s = "rowtags" -> {"lhs", "rhs"}
              [] s = "locks" -> {"A", "rowtags"}
              [] s = "activities" -> {"A", "coltags", "bounds"}
              [] s = "countrows" -> {"A"}
              [] s = "AT" -> {"A"}
              [] s = "countcols" -> {"AT"}
              [] s = "state" -> {"rowsizes", "colsizes", "rowtags", "activities"}
              [] s = "constraints" -> {"A"}
              [] OTHER -> {}
Writes(s) == (IF s \in NoObject THEN {} ELSE {s}) \cup
             (CASE s = "fillbounds" -> {"bounds", "coltags"}
                [] s = "countrows" -> {"rowsizes"}
                [] s = "countcols" -> {"colsizes"}
                [] s = "AT" -> {"work"}
                [] s = "state" -> {"activities"}
                [] OTHER -> {})
\* what an object takes over when it comes to be
Takes(s) == CASE s = "constraints" -> {"A", "AT", "lhs", "rhs", "bounds", "rowtags", "coltags"}
              [] s = "obj" -> {"c"}
              [] s = "prob" -> {"constraints", "obj", "state", "work", "locks", "activities", "rowsizes", "colsizes"}
              [] OTHER -> {}
Holder(s) == IF s \in {"prob", "stats", "reduced", "sol"} THEN "presolver" ELSE IF s \in {"x", "y", "z"} THEN "sol" ELSE "locals"

Threads == {"main", "helper"}
Init == /\ todo = [t \in Threads |-> IF t = "main" THEN Main1 ELSE <<>>]
        /\ busy = [t \in Threads |-> "none"]
        /\ live = {} /\ owner = [o \in Objects |-> "locals"]
        /\ freed = [o \in Objects |-> 0]
        /\ fails = 0 /\ spawned = "no" /\ result = "none"

Step(t) == Head(todo[t])
Running(t) == result = "none" /\ todo[t] # <<>> /\ busy[t] = "none"
Advance(t) == todo' = [todo EXCEPT ![t] = Tail(@)]

\* a step begins (so that two can be under way at the same time) ...
Enter(t) == /\ Running(t) /\ Step(t) \notin {"check", "spawn", "join", "return"}
            /\ busy' = [busy EXCEPT ![t] = Step(t)]
            /\ UNCHANGED <<todo, live, owner, freed, fails, spawned, result>>
\* ... and ends: its object is there,
Leave(t) ==
    LET s == busy[t] IN
    /\ s # "none"
    /\ busy' = [busy EXCEPT ![t] = "none"]
    /\ Advance(t)
    /\ IF s \in NoObject THEN UNCHANGED <<live, owner>>
       ELSE /\ live' = live \cup {s}
            /\ owner' = [o \in Objects |-> IF o = s THEN Holder(s) ELSE IF o \in Takes(s) THEN s ELSE owner[o]]
    /\ UNCHANGED <<freed, fails, spawned, result>>
\* or it is not; a thread whose row tags or whose transpose is missing leaves out what needs it
Fail(t) ==
    LET s == busy[t] IN
    /\ s \notin NoObject \cup {"none"} /\ fails < MaxFailures
    /\ fails' = fails + 1
    /\ busy' = [busy EXCEPT ![t] = "none"]
    /\ todo' = [todo EXCEPT ![t] = IF s = "rowtags" THEN SelectSeq(Tail(@), LAMBDA q : q \notin {"fillbounds", "locks", "activities", "countrows"})
                                   ELSE IF s = "AT" THEN Tail(Tail(@)) ELSE Tail(@)]
    /\ UNCHANGED <<live, owner, freed, spawned, result>>
Spawn == /\ Running("main") /\ Step("main") = "spawn"
         /\ \/ /\ spawned' = "yes"
               /\ todo' = [todo EXCEPT !["main"] = Tail(@), !["helper"] = Helper]
            \/ /\ spawned' = "failed" \* then the main thread does it all, when it has finished its own half
               /\ Advance("main")
         /\ UNCHANGED <<busy, live, owner, freed, fails, result>>
Join == /\ Running("main") /\ Step("main") = "join"
        /\ \/ /\ spawned = "yes" /\ todo["helper"] = <<>> /\ busy["helper"] = "none"
              /\ Advance("main") /\ spawned' = "joined"
           \/ /\ spawned = "failed"
              /\ todo' = [todo EXCEPT !["main"] = Helper \o Tail(@)] /\ spawned' = "joined"
        /\ UNCHANGED <<busy, live, owner, freed, fails, result>>
\* what should be there by now
Wanted == {Main1[k] : k \in {q \in DOMAIN Main1 : q < Len(Main1) - Len(todo["main"]) + 1}} \cup
          (IF spawned = "joined" THEN {Helper[k] : k \in DOMAIN Helper} ELSE {})
\* whoever is found in a local variable is released with all it has taken over
RECURSIVE Under(_)
Under(os) == LET more == {o \in live : owner[o] \in os} IN IF more \subseteq os THEN os ELSE Under(os \cup more)
Release(os) == LET all == Under(os \cap live) IN /\ live' = live \ all
                                                /\ freed' = [o \in Objects |-> IF o \in all THEN freed[o] + 1 ELSE freed[o]]
ConstructorCheck ==
    /\ Running("main") /\ Step("main") = "check"
    /\ IF (Wanted \cap Objects) \subseteq live
       THEN Advance("main") /\ UNCHANGED <<live, freed, result>>
       ELSE /\ Release({o \in live : owner[o] = "locals"})
            /\ result' = "null"
            /\ UNCHANGED todo
    /\ UNCHANGED <<busy, owner, fails, spawned>>
Return == /\ Running("main") /\ Step("main") = "return"
          /\ result' = "built" /\ Advance("main")
          /\ owner' = [owner EXCEPT !["presolver"] = "caller"]
          /\ UNCHANGED <<busy, live, freed, fails, spawned>>
\* the caller releases it
Free == /\ result = "built" /\ "presolver" \in live
        /\ Release({"presolver"})
        /\ UNCHANGED <<todo, busy, owner, fails, spawned, result>>

Next == \/ \E t \in Threads : Enter(t) \/ Leave(t) \/ Fail(t)
        \/ Spawn \/ Join \/ ConstructorCheck \/ Return \/ Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
\* C10: no two steps under way at the same time touch the same object unless both only read it
NoRace == LET a == busy["main"] b == busy["helper"] IN
    a # "none" /\ b # "none" => /\ Writes(a) \cap (Reads(b) \cup Writes(b)) = {}
                                /\ Writes(b) \cap Reads(a) = {}
\* and nothing is read or written that is not there
Defined == \A t \in Threads : busy[t] # "none" =>
    (Reads(busy[t]) \cup Writes(busy[t])) \ {busy[t]} \subseteq live
\* C10: what is there when it is built does not depend on the order
SameObject == result = "built" /\ "presolver" \in live => live = Objects /\ Under({"presolver"}) = Objects
\* C11: NULL exactly if an allocation failed, and then nothing is left; nothing is released twice
NullIfFailed == /\ result = "null" => fails > 0 /\ live = {}
                /\ result = "built" => fails = 0
Once == \A o \in Objects : freed[o] <= 1
\* no thread is left behind
NoThreadLeft == result # "none" => todo["helper"] = <<>> /\ busy["helper"] = "none"
\* C12: it returns, and the caller can release all of it
Returns == <>(result # "none")
AllReleased == result = "built" ~> live = {}
=============================================================================
