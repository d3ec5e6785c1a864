------------------------------ MODULE PslpApi ------------------------------
(***************************************************************************)
(* The life of presolver objects as a caller sees it: which calls may come *)
(* when, what each one changes and, above all, what it does not.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Handles, Problems
VARIABLES inst,   \* inst[h]: the presolver object behind handle h
          caller  \* caller[p]: what the caller did to its own arrays of problem p
apivars == <<inst, caller>>

NoInst == [st |-> "none", prob |-> 0, run |-> 0, new |-> 0, post |-> 0]
Verdicts == {"unchanged", "reduced", "infeasible", "unbndorinfeas"}

ApiInit == /\ inst = [h \in Handles |-> NoInst]
           /\ caller = [p \in Problems |-> "original"]

\* new_presolver(p): at is a serial number
New(h, p, ok, at) ==
    /\ inst[h].st = "none"
    /\ inst' = [inst EXCEPT ![h] = IF ok THEN [st |-> "built", prob |-> p, run |-> 0, new |-> at, post |-> 0] ELSE NoInst]
    /\ caller' = [caller EXCEPT ![p] = "original"]
Run(h, verdict, at) ==
    /\ inst[h].st = "built"
    /\ verdict \in Verdicts
    /\ inst' = [inst EXCEPT ![h].st = verdict, ![h].run = at]
    /\ UNCHANGED caller
HasReduced(h) == inst[h].st \in {"unchanged", "reduced"}
\* the solution stays with the presolver until the next postsolve
Post(h, at) == /\ HasReduced(h)
               /\ inst' = [inst EXCEPT ![h].post = at]
               /\ UNCHANGED caller
View(h) == HasReduced(h) /\ UNCHANGED apivars
Free(h) == /\ inst[h].st # "none"
           /\ inst' = [inst EXCEPT ![h] = NoInst]
           /\ UNCHANGED caller
\* freeing what new_presolver refused to build
FreeNull(h) == inst[h].st = "none" /\ UNCHANGED apivars
\* the caller overwrites or releases its own arrays; no presolver object changes
Scribble(p) == /\ caller' = [caller EXCEPT ![p] = "gone"]
               /\ UNCHANGED inst
\* or puts the next problem into the same arrays
Reuse(p, q) == /\ p # q
               /\ caller' = [caller EXCEPT ![p] = "gone", ![q] = "original"]
               /\ UNCHANGED inst
=============================================================================
