----------------------------- MODULE PslpTrace -----------------------------
(***************************************************************************)
(* Trace validation: is a recorded run of the library a behaviour of the   *)
(* API specification (PslpApi), and do the properties hold in every state  *)
(* of it?  One case of the trace file = one initial state; one event = one *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS PslpApi, Left, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
Tol == "1/10000"
TolIn == "1/100000000"  \* what counts as a solution of the reduced problem

VARIABLES tid,  \* the case
          l     \* the next event of the case
vars == <<tid, l, inst, caller>>

Events(t) == Cases[t].ev
Prob(t, p) == Cases[t].probs[p]
Ev == Events(tid)[l]

TraceInit == /\ tid \in DOMAIN Cases
             /\ l = 1
             /\ ApiInit

Is(e) == /\ l <= Len(Events(tid)) /\ Ev.ev = e /\ l' = l + 1 /\ UNCHANGED tid
\* the call came back, and no memory checker had anything to say about it
Returned == "lost" \notin DOMAIN Ev /\ ("memerr" \in DOMAIN Ev => Ev.memerr = 0)

Verdict(s) == CASE s = 0 -> "unchanged" [] s = 1 -> "reduced" [] s = 2 -> "infeasible" [] s = 6 -> "unbndorinfeas" [] OTHER -> "illegal"

TraceNew == Is("New") /\ Returned /\ New(Ev.h, Ev.p, Ev.ok, l)
TraceRun == Is("Run") /\ Returned /\ Run(Ev.h, Verdict(Ev.status), l)
TracePost == Is("Post") /\ Returned /\ Post(Ev.h, l)
TraceView == Is("View") /\ Returned /\ View(Ev.h)
TraceFree == Is("Free") /\ Returned /\ Free(Ev.h)
TraceFreeNull == Is("FreeNull") /\ Returned /\ FreeNull(Ev.h)
TraceScribble == Is("Scribble") /\ IF Ev.into = 0 THEN Scribble(Ev.p) ELSE Reuse(Ev.p, Ev.into)
\* calls of several threads went on at the same time; they follow as events, thread by thread (calls on
\* different handles commute in PslpApi, so any order explains them)
TraceThreads == Is("Threads") /\ Returned /\ UNCHANGED <<inst, caller>>
TraceDefaults == Is("Defaults") /\ Returned /\ UNCHANGED <<inst, caller>>
TraceSkip == Is("Skip") /\ UNCHANGED <<inst, caller>>
TraceNext == TraceNew \/ TraceRun \/ TracePost \/ TraceView \/ TraceFree \/ TraceFreeNull \/ TraceScribble \/ TraceSkip \/ TraceThreads \/ TraceDefaults
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* ------------------------------------------------------- what the state shows
LastEv == Events(tid)[l - 1]
LastIs(e) == l > 1 /\ LastEv.ev = e
LastProb == Prob(tid, inst[LastEv.h].prob)
RunOf(h) == Events(tid)[inst[h].run]
Presolved(st) == st \in {"unchanged", "reduced"}
RedAsLP(r) == [m |-> r.m, n |-> r.n, A |-> r.A, lhs |-> r.lhs, rhs |-> r.rhs, lb |-> r.lb, ub |-> r.ub, c |-> r.c, off |-> r.off]
Usable(r) == r.sane /\ Len(r.A) = r.m /\ WellFormed(RedAsLP(r))
TrueKind(P) == Certified(P, P.cert, "0")

\* ------------------------------------------------------------------ accepted
\* the trace is explained to its end: every event was some action of the specification
\* (a call that never returned, a verdict that does not exist, a refused transition are not)
Accepted == l <= Len(Events(tid)) => ENABLED TraceNext
\* the same for one kind of call only
AcceptedCall(e) == (l <= Len(Events(tid)) /\ Ev.ev = e) => ENABLED TraceNext
AcceptedRun == AcceptedCall("Run")
AcceptedPost == AcceptedCall("Post")

\* ----------------------------------------------------------------------- C01
InfeasibleSound ==
    LastIs("Run") /\ inst[LastEv.h].st = "infeasible" => TrueKind(LastProb) \in {"inf", "none"}
\* ----------------------------------------------------------------------- C02
UnbndOrInfeasSound ==
    LastIs("Run") /\ inst[LastEv.h].st = "unbndorinfeas" => TrueKind(LastProb) \in {"inf", "unb", "none"}
\* ----------------------------------------------------------------------- C03
Equivalent ==
    LastIs("Run") /\ Presolved(inst[LastEv.h].st) =>
      /\ Usable(LastEv.red)
      /\ LET P == LastProb
             R == RedAsLP(LastEv.red)
             kp == Certified(P, P.cert, Tol)
             kr == Certified(R, LastEv.cert, Tol)
         IN kp = "none" \/ kr = "none" \/
            /\ kp = kr
            /\ kp = "opt" =>
                 LET op == Obj(P, P.cert.x)
                     or == RAdd(Obj(R, LastEv.cert.x), R.off)
                 IN EqT(op, or, Slack(Tol, RAdd(RAdd("1", ObjAbs(P, P.cert.x)), RAdd(ObjAbs(R, LastEv.cert.x), RAbs(R.off)))))
\* ----------------------------------------------------------------------- C04
PostPrimal ==
    LastIs("Post") =>
      LET P == LastProb
          R == RedAsLP(RunOf(LastEv.h).red)
      IN PrimalFeasible(R, LastEv.x, TolIn) =>
           /\ LastEv.dims
           /\ PrimalFeasible(P, LastEv.ox, Tol)
           /\ EqT(Obj(P, LastEv.ox), RAdd(Obj(R, LastEv.x), R.off),
                  Slack(Tol, RAdd(RAdd("1", ObjAbs(P, LastEv.ox)), RAdd(ObjAbs(R, LastEv.x), RAbs(R.off)))))
\* ----------------------------------------------------------------------- C05
PostDual ==
    LastIs("Post") =>
      LET P == LastProb
          R == RedAsLP(RunOf(LastEv.h).red)
      IN KKT(R, LastEv.x, LastEv.y, LastEv.z, TolIn) =>
           /\ LastEv.dims
           /\ AllFin(LastEv.ox)
           /\ Stationary(P, LastEv.oy, LastEv.oz, Tol)
           /\ RowComplementary(P, LastEv.ox, LastEv.oy, Tol)
           /\ ColComplementary(P, LastEv.ox, LastEv.oz, Tol)
\* ----------------------------------------------------------------------- C06
\* what was built knows the size of the original problem; a presolved problem is a well-formed
\* CSR problem, not larger than the original, and status and statistics tell the truth about it
EmptyCols(R) == {j \in 1..R.n : \A i \in 1..R.m : Coef(R.A[i], j) = "0"}
ShapeNew == LastIs("New") /\ LastEv.ok => LastEv.dim = <<Prob(tid, LastEv.p).m, Prob(tid, LastEv.p).n>>
ShapeRun ==
    LastIs("Run") =>
      LET P == LastProb
          s == LastEv.stats
          r == LastEv.red
      IN /\ s.m0 = P.m /\ s.n0 = P.n /\ s.nz0 = P.nnz
         /\ Presolved(inst[LastEv.h].st) =>
              /\ Usable(r)
              /\ r.Ap[1] = 0
              /\ r.Ap[r.m + 1] = r.nnz
              /\ r.m <= P.m /\ r.n <= P.n /\ r.nnz <= P.nnz
              /\ s.m1 = r.m /\ s.n1 = r.n /\ s.nz1 = r.nnz
              /\ (inst[LastEv.h].st = "unchanged") = (r.m = P.m /\ r.n = P.n /\ r.nnz = P.nnz)
              /\ s.triv + s.fast + s.prop + s.prow + s.pcol = s.nz0 - s.nz1
              /\ \A k \in {s.triv, s.fast, s.prop, s.prow, s.pcol} : k >= 0 /\ k <= s.nz0
\* the times it reports are those that passed on the clock (in microseconds; a reading of the clock
\* takes one, and how often it is read is not our concern)
SoMuch(a, b) == IF b = -1 THEN a = -1 ELSE a - b \in -64..64
NewOf(h) == Events(tid)[inst[h].new]
TimesTrue ==
    l > 1 /\ "spent" \in DOMAIN LastEv /\ "times" \in DOMAIN LastEv =>
      LET t == LastEv.times
      IN CASE LastEv.ev = "New" -> LastEv.ok => SoMuch(t.init, LastEv.spent)
           [] LastEv.ev = "Run" ->
                /\ t.init = NewOf(LastEv.h).times.init
                /\ \A x \in {t.fast, t.medium, t.prop, t.prow, t.pcol} : x >= -1
                /\ LastProb.stgs[5] = 0 => t.prop = 0
                /\ LastProb.stgs[3] = 0 => t.prow = 0
                /\ LastProb.stgs[4] = 0 => t.pcol = 0
                /\ Presolved(inst[LastEv.h].st) =>
                     /\ SoMuch(t.presolve, LastEv.spent)
                     /\ LastEv.spent >= 0 => /\ t.fast + t.medium <= t.presolve + 64
                                             /\ t.prop + t.prow + t.pcol <= t.medium + 64
           [] LastEv.ev = "Post" ->
                /\ SoMuch(t.postsolve, LastEv.spent)
                /\ [t EXCEPT !.postsolve = 0] = [RunOf(LastEv.h).times EXCEPT !.postsolve = 0]
           [] OTHER -> TRUE
\* ... and the trivial reductions are exhausted in it
Exhausted ==
    LastIs("Run") /\ Presolved(inst[LastEv.h].st) =>
      LET R == RedAsLP(LastEv.red)
      IN /\ \A i \in 1..R.m : Len(R.A[i]) >= 2
         /\ EmptyCols(R) = {}
\* ----------------------------------------------------------------------- C07
InputIntact == l > 1 /\ LastEv.ev \in {"New", "Run", "Post"} => LastEv.intact
\* ----------------------------------------------------------------------- C09
\* a reduction that is switched off removes nothing
OffMeansOff ==
    LastIs("Run") =>
      LET g == LastProb.stgs
          s == LastEv.stats
      IN /\ g[1] = 0 /\ g[2] = 0 => s.fast = 0
         /\ g[3] = 0 => s.prow = 0
         /\ g[4] = 0 => s.pcol = 0
         /\ g[5] = 0 => s.prop = 0
\* and if none of those that are on finds anything, what comes back is the trivial fixpoint
OnlyTrivial ==
    LastIs("Run") =>
      LET P == LastProb
          g == P.stgs
          S == Fixpoint(Start(P))
          st == inst[LastEv.h].st
      IN CASE S.st = "ok" -> NothingToDo(Start(P), S, g) => Presolved(st) /\ SameProblem(S, LastEv.red, g[8] = 1, Tol)
           [] S.st \in {"inf", "unb"} -> st \in {"infeasible", "unbndorinfeas"}
           [] OTHER -> TRUE
\* ... which goes for each part of a problem that falls into parts, whatever happens to the others
PartsKept ==
    LastIs("Run") /\ Presolved(inst[LastEv.h].st) =>
      LET P == LastProb
          parts == PartsOf(P, 1..P.n)
          r == LastEv.red
      IN Cardinality(parts) > 1 =>
           \A K \in parts :
             LET B == Part(P, K)
                 S == Fixpoint(B)
             IN S.st = "ok" /\ S.R # {} /\ NothingToDo(B, S, P.stgs) => Contained(S, r, P.stgs[8] = 1, Tol)
\* a finite bound is tightened by what singleton rows say, and otherwise only when that is on (the
\* reductions that are on here neither replace nor merge variables)
FiniteBoundsKept ==
    LastIs("Run") /\ Presolved(inst[LastEv.h].st) =>
      LET P == LastProb
          g == P.stgs
          S == Fixpoint(Start(P))
          r == LastEv.red
      IN g[1] = 0 /\ g[2] = 0 /\ g[4] = 0 /\ g[6] = 0 /\ g[7] = 0 /\ S.st = "ok" /\ r.n = Cardinality(S.C) =>
           LET cols == Ordered(S.C)
           IN \A j \in 1..r.n : /\ RFin(S.lb[cols[j]]) => SameBound(r.lb[j], S.lb[cols[j]], g[8] = 1, NegInf)
                                /\ RFin(S.ub[cols[j]]) => SameBound(r.ub[j], S.ub[cols[j]], g[8] = 1, Inf)
\* it prints nothing when it is told not to
Silent == LastIs("Run") \/ LastIs("Post") => (LastEv.verbose = 0 => LastEv.printed = 0)
\* and otherwise it reports the sizes before and after, or the verdict
Reported == LastIs("Run") /\ LastEv.verbose = 1 =>
    LET P == LastProb
        ok == LastEv.status \in {0, 1}
        said == LastEv.report
        before == <<P.m, P.n, FoldLeft(LAMBDA a, r : a + Len(r), 0, P.A)>>
    IN /\ said.sizes = IF ok THEN <<before, <<LastEv.red.m, LastEv.red.n, LastEv.red.nnz>>>> ELSE <<before>>
       /\ said.inf = ~ok
       /\ said.unb = (LastEv.status = 6)
\* the settings one starts from: everything on; and the two extremes, which leave the limits alone
AllOn(s) == \A k \in 1..8 : s.on[k] = 1
DefaultsRight == LastIs("Defaults") =>
    /\ AllOn(LastEv.def) /\ LastEv.def.max_shift > 0 /\ LastEv.def.max_ms > 0
    /\ AllOn(LastEv.all)
    /\ \A k \in 1..8 : LastEv.none.on[k] = 0
    /\ LastEv.none.verbose = 0
    /\ \A s \in {LastEv.all, LastEv.none} : s.max_shift = LastEv.limit /\ s.max_ms = 1000 * LastEv.limit
\* ----------------------------------------------------------------------- C13
\* The driver's clock stands nearly still, but at the jump-th reading of a run jump_ms go by at
\* once.  A run that sees more time pass than it was given has been struck.
Jumped(e) == "jump" \in DOMAIN e /\ e.jump > 0 /\ e.clocks >= e.jump
Struck(e) == Jumped(e) /\ e.jump > 1 /\ e.jump_ms >= Prob(tid, e.p).max_ms
\* it winds up within one round of reductions, however many there were to come
WindUp == 32
StopsSoon == LastIs("Run") /\ Struck(LastEv) => LastEv.clocks <= LastEv.jump + WindUp
\* ----------------------------------------------------------------------- C08
\* what a call returns depends on the problem, its settings and the arguments only: not on other
\* handles, earlier calls, what the caller did to its own arrays, or the memory it was given
SameRun == LastIs("Run") =>
    \A k \in 1..(l - 2) :
      LET e == Events(tid)[k]
      IN e.ev = "Run" /\ e.p = LastEv.p /\ ~Struck(e) /\ ~Struck(LastEv) => e.status = LastEv.status /\ e.red = LastEv.red /\ e.stats = LastEv.stats
SamePost == LastIs("Post") =>
    \A k \in 1..(l - 2) :
      LET e == Events(tid)[k]
      IN e.ev = "Post" /\ e.p = LastEv.p /\ e.x = LastEv.x /\ e.y = LastEv.y /\ e.z = LastEv.z =>
            e.ox = LastEv.ox /\ e.oy = LastEv.oy /\ e.oz = LastEv.oz
SameView == LastIs("View") =>
    /\ LastEv.red = RunOf(LastEv.h).red
    /\ inst[LastEv.h].post # 0 =>
         LET e == Events(tid)[inst[LastEv.h].post]
         IN LastEv.ox = e.ox /\ LastEv.oy = e.oy /\ LastEv.oz = e.oz
\* ----------------------------------------------------------------------- C15
\* a run that ended by itself leaves nothing that an enabled reduction removes
Ended == LastIs("Run") /\ Presolved(inst[LastEv.h].st) /\ ~Struck(LastEv) /\ LastProb.max_ms >= 60000
\* (supports of vectors of up to 33 entries are told apart by their hash)
Few == LastProb.m <= 33 /\ LastProb.n <= 33
NothingLeft ==
    Ended /\ LastEv.red.nnz <= CycleBlind =>
      LET S == Start(RedAsLP(LastEv.red))
          g == LastProb.stgs
      IN /\ ~FixedLeft(S)
         /\ g[1] = 1 => ~StonLeft(S, g[5] = 0, g[5] = 0 /\ Unrounded(LastProb))
         /\ g[2] = 1 /\ Roomy(LastProb) => ~AnyDton(S)
         /\ g[7] = 1 => ~DualLeft(S)
         /\ g[3] = 1 /\ Few => ~RowsLeft(S)
         /\ g[4] = 1 /\ Few => ~ColsLeft(S)
\* nor does it pass by what it finds in the beginning: a presolve that removes no column that the
\* trivial reductions leave had no doubleton equation to eliminate, and has drawn all conclusions
\* from those rows and bounds that are still what they were
NothingMissed ==
    Ended =>
      LET S == Fixpoint(Start(LastProb))
          R == RedAsLP(LastEv.red)
          g == LastProb.stgs
          cols == Ordered(S.C)
          T == Start(R)
          Row(i) == [k \in DOMAIN R.A[i] |-> <<cols[R.A[i][k][1]], R.A[i][k][2]>>]
          Same(i) == /\ \E q \in S.R : S.A[q] = Row(i) /\ S.lhs[q] = R.lhs[i] /\ S.rhs[q] = R.rhs[i]
                     /\ \A k \in DOMAIN R.A[i] :
                          LET j == R.A[i][k][1] IN S.lb[cols[j]] = R.lb[j] /\ S.ub[cols[j]] = R.ub[j]
      IN S.st = "ok" /\ ~S.late /\ R.n = Cardinality(S.C) =>
           /\ g[2] = 1 => ~DtonLeft(S)
           /\ g[5] = 1 => \A i \in 1..R.m : Same(i) => ~Redundant(T, i) /\ ~Implies(T, i, g[6] = 1)
\* ----------------------------------------------------------------------- C11
Builds == LastIs("New") =>
    /\ LastEv.hit => ~LastEv.ok
    /\ ~LastEv.hit /\ ~LastEv.thit => LastEv.ok
NoInstances == \A h \in Handles : inst[h].st = "none"
LiveBefore == IF l > 2 /\ "live" \in DOMAIN Events(tid)[l - 2] THEN Events(tid)[l - 2].live ELSE 0
Ledger == l > 1 /\ "live" \in DOMAIN LastEv =>
    /\ LastEv.badfree = 0
    /\ LastEv.late = 0
    /\ NoInstances => LastEv.live = 0
    /\ (LastEv.ev = "New" /\ ~LastEv.ok) => LastEv.live = LiveBefore
=============================================================================
