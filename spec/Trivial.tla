------------------------------ MODULE Trivial ------------------------------
(***************************************************************************)
(* The reductions that every presolve performs, whatever its settings:     *)
(* fixed variables, singleton rows, empty rows and empty columns, until    *)
(* none is left.  And, for every reduction that a setting switches on,     *)
(* what it needs to find before it can do anything.  A presolve in which   *)
(* no enabled reduction finds anything returns the trivial fixpoint.       *)
(*                                                                         *)
(* A state S of the fixpoint computation is the problem with the sets R of *)
(* its remaining rows and C of its remaining columns, and a verdict: "ok", *)
(* "inf", "unb", or "unclear" when a decision hangs on less than Margin.   *)
(* It is late if some variable is fixed by its bounds only once a singleton*)
(* inequality has been removed: that is noticed in the next round, when    *)
(* other reductions may have come first.                                   *)
(***************************************************************************)
EXTENDS LP

Margin == "1/1000"
Near(a, b) == RFin(a) /\ RFin(b) /\ RLt(RAbs(RSub(a, b)), Margin)

Start(P) == [A |-> P.A, lhs |-> P.lhs, rhs |-> P.rhs, lb |-> P.lb, ub |-> P.ub, c |-> P.c, off |-> P.off,
             R |-> 1..P.m, C |-> 1..P.n, st |-> "ok", late |-> FALSE]
MinOf(s) == CHOOSE k \in s : \A q \in s : k <= q
Shift(v, d) == IF RFin(v) THEN RSub(v, d) ELSE v
\* x_j = v from now on
FixCol(S, j, v) ==
    LET d(i) == RMul(Coef(S.A[i], j), v)
        in(i) == \E k \in DOMAIN S.A[i] : S.A[i][k][1] = j
    IN [S EXCEPT !.A = [i \in DOMAIN @ |-> SelectSeq(@[i], LAMBDA e : e[1] # j)],
                 !.lhs = [i \in DOMAIN @ |-> IF in(i) THEN Shift(@[i], d(i)) ELSE @[i]],
                 !.rhs = [i \in DOMAIN @ |-> IF in(i) THEN Shift(@[i], d(i)) ELSE @[i]],
                 !.off = RAdd(@, RMul(S.c[j], v)),
                 !.C = @ \ {j}]
\* the bounds that a singleton row means
StonLo(S, i) == LET a == S.A[i][1][2] s == IF RLe("0", a) THEN S.lhs[i] ELSE S.rhs[i]
                IN IF RFin(s) THEN RDiv(s, a) ELSE NegInf
StonHi(S, i) == LET a == S.A[i][1][2] s == IF RLe("0", a) THEN S.rhs[i] ELSE S.lhs[i]
                IN IF RFin(s) THEN RDiv(s, a) ELSE Inf
TightenBy(S, i) ==
    LET j == S.A[i][1][1]
        lo == RMax(S.lb[j], StonLo(S, i))
        hi == RMin(S.ub[j], StonHi(S, i))
    IN [S EXCEPT !.lb[j] = lo, !.ub[j] = hi, !.R = @ \ {i}, !.late = @ \/ (S.lhs[i] # S.rhs[i] /\ lo = hi)]
EmptyColsOf(S) == {j \in S.C : \A i \in S.R : \A k \in DOMAIN S.A[i] : S.A[i][k][1] # j}

RECURSIVE Fixpoint(_)
Fixpoint(S) ==
    LET crossed == {j \in S.C : RLt(S.ub[j], S.lb[j])}
        hazy == {j \in S.C : S.lb[j] # S.ub[j] /\ Near(S.lb[j], S.ub[j])}
        fixed == {j \in S.C : S.lb[j] = S.ub[j]}
        stons == {i \in S.R : Len(S.A[i]) = 1}
        empty == {i \in S.R : Len(S.A[i]) = 0}
        badempty == {i \in empty : RLt("0", S.lhs[i]) \/ RLt(S.rhs[i], "0")}
        hazyempty == {i \in empty : (S.lhs[i] # "0" /\ Near(S.lhs[i], "0")) \/ (S.rhs[i] # "0" /\ Near(S.rhs[i], "0"))}
        emptyc == EmptyColsOf(S)
    IN CASE S.st # "ok" -> S
         [] hazy # {} \/ hazyempty # {} -> [S EXCEPT !.st = "unclear"]
         [] crossed # {} \/ badempty # {} -> [S EXCEPT !.st = "inf"]
         [] empty # {} -> Fixpoint([S EXCEPT !.R = @ \ empty])
         [] fixed # {} -> LET j == MinOf(fixed) IN Fixpoint(FixCol(S, j, S.lb[j]))
         [] stons # {} -> Fixpoint(TightenBy(S, MinOf(stons)))
         [] emptyc # {} ->
              LET j == MinOf(emptyc)
                  at == IF S.c[j] = "0" THEN "0" ELSE IF RLt("0", S.c[j]) THEN S.lb[j] ELSE S.ub[j]
              IN IF ~RFin(at) THEN [S EXCEPT !.st = "unb"] ELSE Fixpoint(FixCol(S, j, at))
         [] OTHER -> S

\* -------------------------------------------- what each reduction has to find
ColCount(S, j) == Cardinality({i \in S.R : \E k \in DOMAIN S.A[i] : S.A[i][k][1] = j})
IsEq(S, i) == S.lhs[i] = S.rhs[i] \/ Near(S.lhs[i], S.rhs[i])
NoSingletonCol(S) == \A j \in S.C : ColCount(S, j) # 1
NoDoubletonEq(S) == \A i \in S.R : ~(IsEq(S, i) /\ Len(S.A[i]) = 2)
\* two vectors with the same support, given by their entries: one is (nearly) a multiple of the other
Proportional(u, v) == \A a, b \in DOMAIN u :
    LET l == RMul(u[a], v[b]) r == RMul(u[b], v[a])
    IN RLe(RAbs(RSub(l, r)), RMul(Margin, RAdd(RAbs(l), RAbs(r))))
RowVec(S, i) == [j \in {S.A[i][k][1] : k \in DOMAIN S.A[i]} |-> Coef(S.A[i], j)]
ColVec(S, j) == [i \in {q \in S.R : \E k \in DOMAIN S.A[q] : S.A[q][k][1] = j} |-> Coef(S.A[i], j)]
Alike(u, v) == DOMAIN u = DOMAIN v /\ Proportional(u, v)
NoParallelRows(S) == \A i, q \in S.R : i < q => ~Alike(RowVec(S, i), RowVec(S, q))
NoParallelCols(S) == \A j, q \in S.C : j < q => ~Alike(ColVec(S, j), ColVec(S, q))
\* row i keeps x_j from going up (down)
UpLock(S, i, j) == LET a == Coef(S.A[i], j) IN (RLt("0", a) /\ RFin(S.rhs[i])) \/ (RLt(a, "0") /\ RFin(S.lhs[i]))
DownLock(S, i, j) == LET a == Coef(S.A[i], j) IN (RLt("0", a) /\ RFin(S.lhs[i])) \/ (RLt(a, "0") /\ RFin(S.rhs[i]))
NoDualFix(S) == \A j \in S.C :
    /\ RLe("0", S.c[j]) => \E i \in S.R : DownLock(S, i, j)
    /\ RLe(S.c[j], "0") => \E i \in S.R : UpLock(S, i, j)
\* entries of row i without a finite smallest (largest) value
InfMin(S, i) == Cardinality({k \in DOMAIN S.A[i] : LET e == S.A[i][k] IN ~RFin(IF RLt("0", e[2]) THEN S.lb[e[1]] ELSE S.ub[e[1]])})
InfMax(S, i) == Cardinality({k \in DOMAIN S.A[i] : LET e == S.A[i][k] IN ~RFin(IF RLt("0", e[2]) THEN S.ub[e[1]] ELSE S.lb[e[1]])})
NoPropagation(S) == \A i \in S.R : InfMin(S, i) >= 2 /\ InfMax(S, i) >= 2
NoInfinite(S) == \A j \in S.C : RFin(S.lb[j]) \/ RFin(S.ub[j])

\* g: the settings, in the order ston_cols, dton_eq, parallel_rows, parallel_cols,
\* primal_propagation, finite_bound_tightening, dual_fix, relax_bounds
NothingToDo(B, S, g) == \* (B: S before the trivial reductions)
    /\ ~S.late
    /\ g[1] = 1 => NoSingletonCol(S)
    /\ g[2] = 1 => NoDoubletonEq(S)
    /\ g[3] = 1 => NoParallelRows(S)
    /\ g[4] = 1 => NoParallelCols(S)
    /\ g[5] = 1 => NoPropagation(S)
    /\ g[7] = 1 => NoDualFix(S) /\ NoDualFix(B)

\* two ways of rounding may differ a little; a relaxed bound may be gone
SameBound(a, b, relax, gone) == \/ EqT(a, b, Slack("1/10000", IF RFin(b) THEN RAdd("1", RAbs(b)) ELSE "1"))
                                \/ relax /\ a = gone
Ordered(s) == SetToSortSeq(s, <)
\* the reduced problem r is S (bounds that the rows imply may be gone if relax)
SameProblem(S, r, relax, T) ==
    LET rows == Ordered(S.R)
        cols == Ordered(S.C)
        \* what two ways of rounding may differ by
        Sl(v) == Slack(T, IF RFin(v) THEN RAdd("1", RAbs(v)) ELSE "1")
        Same(a, b) == EqT(a, b, Sl(b))
    IN /\ r.m = Len(rows) /\ r.n = Len(cols)
       /\ \A i \in 1..r.m :
            LET q == rows[i]
            IN /\ Len(r.A[i]) = Len(S.A[q])
               /\ \A k \in DOMAIN r.A[i] : cols[r.A[i][k][1]] = S.A[q][k][1] /\ Same(r.A[i][k][2], S.A[q][k][2])
               /\ Same(r.lhs[i], S.lhs[q]) /\ Same(r.rhs[i], S.rhs[q])
       /\ \A j \in 1..r.n :
            LET q == cols[j]
            IN /\ Same(r.c[j], S.c[q])
               /\ SameBound(r.lb[j], S.lb[q], relax, NegInf)
               /\ SameBound(r.ub[j], S.ub[q], relax, Inf)
       /\ EqT(r.off, S.off, Slack(T, RAdd("1", RAbs(S.off))))

\* ------------------------------------------------ problems that fall into parts
ColsOf(P, i) == {P.A[i][k][1] : k \in DOMAIN P.A[i]}
RECURSIVE Reach(_, _)
Reach(P, js) == LET more == js \cup UNION {ColsOf(P, i) : i \in {q \in 1..P.m : ColsOf(P, q) \cap js # {}}}
                IN IF more = js THEN js ELSE Reach(P, more)
RECURSIVE PartsOf(_, _)
PartsOf(P, js) == IF js = {} THEN {} ELSE LET K == Reach(P, {MinOf(js)}) IN {K} \cup PartsOf(P, js \ K)
Part(P, K) == [Start(P) EXCEPT !.R = {i \in 1..P.m : ColsOf(P, i) \cap K # {}}, !.C = K]
\* every row of the part S is found in the reduced problem r, with its variables
Contained(S, r, relax, T) ==
    LET Same(a, b) == EqT(a, b, Slack(T, IF RFin(b) THEN RAdd("1", RAbs(b)) ELSE "1"))
    IN \A q \in S.R : \E i \in 1..r.m :
         /\ Len(r.A[i]) = Len(S.A[q])
         /\ Same(r.lhs[i], S.lhs[q]) /\ Same(r.rhs[i], S.rhs[q])
         /\ \A k \in DOMAIN r.A[i] :
              LET j == r.A[i][k][1]
                  o == S.A[q][k][1]
              IN /\ Same(r.A[i][k][2], S.A[q][k][2])
                 /\ Same(r.c[j], S.c[o])
                 /\ SameBound(r.lb[j], S.lb[o], relax, NegInf)
                 /\ SameBound(r.ub[j], S.ub[o], relax, Inf)
=============================================================================
