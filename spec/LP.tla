--------------------------------- MODULE LP ---------------------------------
(***************************************************************************)
(* Linear programs  min c'x + off,  lhs <= A x <= rhs,  lb <= x <= ub,     *)
(* and what it means for a point, a primal-dual point, a Farkas vector or  *)
(* a ray to certify something about one.                                   *)
(*                                                                         *)
(* A problem is a record [m, n, A, lhs, rhs, lb, ub, c, off]; A is the     *)
(* sequence of its rows, a row the sequence of its entries <<col, value>>. *)
(* All numbers are rationals (module Rat), sides and bounds may be         *)
(* infinite.                                                               *)
(*                                                                         *)
(* Every predicate takes a relative tolerance T; T = "0" is the exact      *)
(* mathematical notion.  A tolerance is scaled by the magnitude of what    *)
(* was added up, so it only absorbs the rounding (and the library's        *)
(* documented 1e-6 feasibility tolerance), not the data.                   *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, SequencesExt

\* ------------------------------------------------------------ arithmetic
RowAct(row, x) == FoldLeft(LAMBDA a, e : RAdd(a, RMul(e[2], x[e[1]])), "0", row)
RowAbs(row, x) == FoldLeft(LAMBDA a, e : RAdd(a, RAbs(RMul(e[2], x[e[1]]))), "1", row)
Coef(row, j)   == FoldLeft(LAMBDA a, e : IF e[1] = j THEN RAdd(a, e[2]) ELSE a, "0", row)
\* sum over the integers 1..n of f(k)
SumTo(n, f(_)) == FoldLeft(LAMBDA a, k : RAdd(a, f(k)), "0", [k \in 1..n |-> k])
ColAct(P, j, y) == SumTo(P.m, LAMBDA i : LET a == Coef(P.A[i], j) IN IF a = "0" THEN "0" ELSE RMul(a, y[i]))
ColAbs(P, j, y) == SumTo(P.m, LAMBDA i : LET a == Coef(P.A[i], j) IN IF a = "0" THEN "0" ELSE RAbs(RMul(a, y[i])))
Obj(P, x)    == SumTo(P.n, LAMBDA j : RMul(P.c[j], x[j]))
ObjAbs(P, x) == SumTo(P.n, LAMBDA j : RAbs(RMul(P.c[j], x[j])))

Slack(T, scale) == IF T = "0" THEN "0" ELSE RMul(T, scale)
\* a <= b up to s; s is finite, a and b may be infinite
LeT(a, b, s) == \/ RLe(a, b)
                \/ RFin(a) /\ RFin(b) /\ RLe(RSub(a, b), s)
EqT(a, b, s) == LeT(a, b, s) /\ LeT(b, a, s)
AllFin(v) == \A k \in DOMAIN v : RFin(v[k])

\* ------------------------------------------------------------ primal side
RowOk(P, i, x, T) ==
    LET v == RowAct(P.A[i], x)
        s == Slack(T, RowAbs(P.A[i], x))
    IN LeT(P.lhs[i], v, s) /\ LeT(v, P.rhs[i], s)
BoxOk(P, j, x, T) ==
    LET s == Slack(T, RAdd("1", RAbs(x[j])))
    IN LeT(P.lb[j], x[j], s) /\ LeT(x[j], P.ub[j], s)
PrimalFeasible(P, x, T) ==
    /\ Len(x) = P.n
    /\ AllFin(x)
    /\ \A i \in 1..P.m : RowOk(P, i, x, T)
    /\ \A j \in 1..P.n : BoxOk(P, j, x, T)

\* -------------------------------------------------------------- dual side
\* the library's convention: z = c - A'y, y_i > 0 only at the left-hand side, y_i < 0 only at
\* the right-hand side, z_j > 0 only at the lower bound, z_j < 0 only at the upper bound
Stationary(P, y, z, T) ==
    /\ Len(y) = P.m /\ Len(z) = P.n /\ AllFin(y) /\ AllFin(z)
    /\ \A j \in 1..P.n :
         EqT(z[j], RSub(P.c[j], ColAct(P, j, y)),
             Slack(T, RAdd(RAdd("1", RAbs(P.c[j])), ColAbs(P, j, y))))
MaxAbs(v) == FoldLeft(LAMBDA a, e : RMax(a, RAbs(e)), "0", v)
RowComplementary(P, x, y, T) ==
    LET ty == Slack(T, RAdd("1", MaxAbs(y)))
    IN \A i \in 1..P.m :
         RLe(RAbs(y[i]), ty) \/
         LET v == RowAct(P.A[i], x)
             s == Slack(T, RowAbs(P.A[i], x))
             side == IF RLe("0", y[i]) THEN P.lhs[i] ELSE P.rhs[i]
         IN RFin(side) /\ EqT(v, side, s)
ColComplementary(P, x, z, T) ==
    LET tz == Slack(T, RAdd("1", MaxAbs(z)))
    IN \A j \in 1..P.n :
         RLe(RAbs(z[j]), tz) \/
         LET bnd == IF RLe("0", z[j]) THEN P.lb[j] ELSE P.ub[j]
         IN RFin(bnd) /\ EqT(x[j], bnd, Slack(T, RAdd("1", RAbs(x[j]))))
KKT(P, x, y, z, T) ==
    /\ PrimalFeasible(P, x, T)
    /\ Stationary(P, y, z, T)
    /\ RowComplementary(P, x, y, T)
    /\ ColComplementary(P, x, z, T)

\* ----------------------------------------------- infeasible and unbounded
\* (y, z) with A'y + z = 0 whose smallest value over the boxes is > 0: no x exists.  With T > 0
\* the gap has to be large against everything added up ("robust"), so that rounding cannot
\* produce one.
SideOf(w, lo, hi) == IF RLe("0", w) THEN lo ELSE hi
Farkas(P, y, z, T) ==
    /\ Len(y) = P.m /\ Len(z) = P.n /\ AllFin(y) /\ AllFin(z)
    /\ \A i \in 1..P.m : y[i] = "0" \/ RFin(SideOf(y[i], P.lhs[i], P.rhs[i]))
    /\ \A j \in 1..P.n : z[j] = "0" \/ RFin(SideOf(z[j], P.lb[j], P.ub[j]))
    /\ \A j \in 1..P.n : EqT(RNeg(z[j]), ColAct(P, j, y),
                             Slack(IF T = "0" THEN "0" ELSE "1/1000000000", RAdd("1", ColAbs(P, j, y))))
    /\ LET ty(i) == IF y[i] = "0" THEN "0" ELSE RMul(y[i], SideOf(y[i], P.lhs[i], P.rhs[i]))
           tz(j) == IF z[j] = "0" THEN "0" ELSE RMul(z[j], SideOf(z[j], P.lb[j], P.ub[j]))
           gap == RAdd(SumTo(P.m, ty), SumTo(P.n, tz))
           scale == RAdd(SumTo(P.m, LAMBDA i : RAbs(ty(i))),
                         RAdd(SumTo(P.n, LAMBDA j : RAbs(tz(j))),
                              RAdd(SumTo(P.m, LAMBDA i : RAbs(y[i])), SumTo(P.n, LAMBDA j : RAbs(z[j])))))
       IN RLt(Slack(T, scale), gap)
Clash(P, T) == \/ \E i \in 1..P.m : ~LeT(P.lhs[i], P.rhs[i], Slack(T, IF RFin(P.lhs[i]) THEN RAdd("1", RAbs(P.lhs[i])) ELSE "1"))
               \/ \E j \in 1..P.n : ~LeT(P.lb[j], P.ub[j], Slack(T, IF RFin(P.lb[j]) THEN RAdd("1", RAbs(P.lb[j])) ELSE "1"))
Ray(P, d, T) ==
    /\ Len(d) = P.n /\ AllFin(d)
    /\ \A j \in 1..P.n : /\ RFin(P.lb[j]) => LeT("0", d[j], Slack(T, "1"))
                         /\ RFin(P.ub[j]) => LeT(d[j], "0", Slack(T, "1"))
    /\ \A i \in 1..P.m : LET v == RowAct(P.A[i], d)
                             s == Slack(T, RowAbs(P.A[i], d))
                         IN /\ RFin(P.lhs[i]) => LeT("0", v, s)
                            /\ RFin(P.rhs[i]) => LeT(v, "0", s)
    /\ RLt(Obj(P, d), RNeg(Slack(T, RAdd("1", ObjAbs(P, d)))))

\* A problem whose only solutions are astronomically large is solvable because of the last digit
\* of its data (coefficients like 0.1 are not what was meant): nobody can be asked to see that.
Moderate(v) == RLe(MaxAbs(v), "10000000")
\* what a certificate record establishes about P: "opt", "inf", "unb", or "none" (nothing)
Certified(P, k, T) ==
    CASE k.kind = "opt" -> IF Moderate(k.x) /\ Moderate(k.y) /\ Moderate(k.z) /\ KKT(P, k.x, k.y, k.z, T) THEN "opt" ELSE "none"
      [] k.kind = "unb" -> IF Moderate(k.x) /\ PrimalFeasible(P, k.x, T) /\ Ray(P, k.ray, T) THEN "unb" ELSE "none"
      [] k.kind = "inf" -> IF Clash(P, T) \/ Farkas(P, k.y, k.z, T) THEN "inf" ELSE "none"
      [] OTHER -> "none"

\* ------------------------------------------------------------ well-formed
WellFormed(P) ==
    /\ Len(P.A) = P.m /\ Len(P.lhs) = P.m /\ Len(P.rhs) = P.m
    /\ Len(P.lb) = P.n /\ Len(P.ub) = P.n /\ Len(P.c) = P.n
    /\ \A i \in 1..P.m :
         /\ \A k \in 1..Len(P.A[i]) : /\ P.A[i][k][1] \in 1..P.n
                                      /\ RFin(P.A[i][k][2])
                                      /\ ~REq(P.A[i][k][2], "0")
                                      /\ k > 1 => P.A[i][k - 1][1] < P.A[i][k][1]
         /\ RLe(P.lhs[i], P.rhs[i])
         /\ P.lhs[i] # "inf" /\ P.rhs[i] # "-inf" /\ P.lhs[i] # "nan" /\ P.rhs[i] # "nan"
    /\ \A j \in 1..P.n : /\ RLe(P.lb[j], P.ub[j]) /\ P.lb[j] # "inf" /\ P.ub[j] # "-inf"
                         /\ RFin(P.c[j])
    /\ RFin(P.off)
=============================================================================
