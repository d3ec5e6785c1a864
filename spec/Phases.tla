------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* The order of work of one presolve: rounds of trivial reductions, each   *)
(* followed by the fast or by the medium ones, until nothing much is       *)
(* removed any more, a verdict is reached, or the time is up.  What a      *)
(* reduction does is abstracted to how many nonzeros it leaves and whether *)
(* it gives a verdict; every outcome is possible at every point, and the   *)
(* time may run out between any two steps.                                 *)
(*                                                                         *)
(* The invariants are the ones that PslpTrace checks on recorded runs      *)
(* (ShapeRun, OffMeansOff, StopsSoon); here they hold for every sequence   *)
(* of outcomes.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxNnz,     \* nonzeros a problem may start with
          Fast, Cycle \* go on if less than so many percent are left after a fast phase, a cycle

Steps == {"ston_cols", "dton", "prop", "prow", "pcol"}
VARIABLES on,      \* the reductions that are switched on
          nz0, nz, \* nonzeros at the beginning and now
          removed, \* what has been booked on which account
          class,   \* the class of the phase: "fast" or "medium"
          todo,    \* the steps of this round still to come
          cycle0,  \* nonzeros at the beginning of the cycle
          phase0,  \* ... of the phase
          verdict, \* "none", "inf" or "unb"
          late,    \* the time is up
          begun,   \* phases begun since then
          result   \* "none" while it runs; what the call returns
vars == <<on, nz0, nz, removed, class, todo, cycle0, phase0, verdict, late, begun, result>>
Accounts == {"triv", "fast", "prop", "prow", "pcol"}

\* a step with the account its removals go to; "settle" ends the round
Work(c) == SelectSeq(IF c = "fast" THEN <<"ston_cols", "dton">> ELSE <<"prop", "prow", "pcol">>, LAMBDA s : s \in on)
Round(c) == <<"triv">> \o Work(c) \o <<"settle">>
Account(s) == IF s \in {"ston_cols", "dton"} THEN "fast" ELSE s

Init == /\ on \in SUBSET Steps
        /\ nz0 \in 0..MaxNnz
        /\ nz = nz0
        /\ removed = [k \in Accounts |-> 0]
        /\ class = "fast"
        /\ todo = Round("fast")
        /\ cycle0 = nz0 /\ phase0 = nz0
        /\ verdict = "none"
        /\ late = FALSE /\ begun = 0
        /\ result = "none"

\* a reduction: some nonzeros go (trivial reductions after it included), or a verdict is found
Reduce == LET s == Head(todo) IN
    /\ result = "none" /\ s # "settle"
    /\ \E left \in 0..nz :
         /\ nz' = left
         /\ removed' = [removed EXCEPT ![Account(s)] = @ + nz - left]
         /\ phase0' = IF s = "triv" THEN left ELSE phase0
    /\ todo' = Tail(todo)
    /\ begun' = IF s = "triv" /\ late THEN begun + 1 ELSE begun
    /\ UNCHANGED <<on, nz0, class, cycle0, verdict, late, result>>
\* (what a step removed before it found the problem to be infeasible is booked nowhere)
Decide == LET s == Head(todo) IN
    /\ result = "none" /\ s # "settle"
    /\ \E left \in 0..nz : nz' = left
    /\ \E v \in {"inf", "unb"} : verdict' = v /\ result' = v
    /\ UNCHANGED <<on, nz0, removed, class, todo, cycle0, phase0, late, begun>>
TimePasses == /\ result = "none" /\ ~late /\ late' = TRUE
              /\ UNCHANGED <<on, nz0, nz, removed, class, todo, cycle0, phase0, verdict, begun, result>>

Enough == class = "medium" /\ 100 * nz >= Cycle * cycle0
Next1 == IF class = "fast" /\ 100 * nz < Fast * phase0 THEN "fast" ELSE IF class = "fast" THEN "medium" ELSE "fast"
Settle ==
    /\ result = "none" /\ Head(todo) = "settle"
    /\ IF Enough \/ late
       THEN /\ result' = IF nz = nz0 THEN "unchanged" ELSE "reduced" \* (sizes stand for the nonzeros here)
            /\ UNCHANGED <<class, todo, cycle0>>
       ELSE /\ class' = Next1
            /\ todo' = Round(Next1)
            /\ cycle0' = IF class = "medium" THEN nz ELSE cycle0
            /\ UNCHANGED result
    /\ UNCHANGED <<on, nz0, nz, removed, phase0, verdict, late, begun>>

Next == Reduce \/ Decide \/ TimePasses \/ Settle
Spec == Init /\ [][Next]_vars /\ WF_vars(Reduce \/ Decide \/ Settle)

\* ---------------------------------------------------------------- properties
Sum == removed["triv"] + removed["fast"] + removed["prop"] + removed["prow"] + removed["pcol"]
\* C06: the accounts add up, whenever a problem is returned
Ledger == result \in {"unchanged", "reduced"} => Sum = nz0 - nz
InBounds == \A k \in Accounts : removed[k] <= nz0
\* C09: nothing is booked on what is off
Off == /\ {"ston_cols", "dton"} \cap on = {} => removed["fast"] = 0
       /\ \A k \in {"prop", "prow", "pcol"} : k \notin on => removed[k] = 0
\* C13: no second phase begins once the time is up
Punctual == begun <= 1
\* a problem is returned only at the end of a round, with nothing of it left undone
Complete == result \in {"unchanged", "reduced"} => todo = <<"settle">> /\ verdict = "none"
\* C15: when it ends by itself, the last cycle removed less than a twentieth; with few nonzeros left
\* that is nothing at all, so every reduction that is on has found nothing in what is returned
Settled == result \in {"unchanged", "reduced"} /\ ~late =>
    class = "medium" /\ 100 * nz >= Cycle * cycle0 /\ (nz <= 18 => nz = cycle0)
ASSUME \A left \in 0..18, before \in 0..400 : before >= left /\ 100 * left >= 95 * before => left = before
\* C12: it ends
Ends == <>(result # "none")
=============================================================================
