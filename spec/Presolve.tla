------------------------------ MODULE Presolve ------------------------------
(***************************************************************************)
(* The reductions of PSLP and their postsolve, as a transition system over *)
(* problems.  Every enabled reduction may come next, so TLC explores every *)
(* order in which they can interact.  Soundness is checked exactly, with   *)
(* certificates: in every reachable state the problem is what the original *)
(* is (infeasible, unbounded, solvable), and an optimal pair of it,        *)
(* undone reduction by reduction, is an optimal pair of the original.      *)
(*                                                                         *)
(* S is a problem state as in Trivial: the data with the sets R and C of   *)
(* the rows and columns still there.  hist is what has been done, as a     *)
(* stack of records from which a solution is undone.                       *)
(***************************************************************************)
EXTENDS Trivial, Solve, SmallLP, TLC, IOUtils
CONSTANTS Lo, Hi,     \* which problems
          Sampled,    \* TRUE: pseudo-random ones of the scope
          MaxTighten  \* how many bounds may be tightened by propagation
VARIABLES orig, kind, S, hist, tightened
pvars == <<orig, kind, S, hist, tightened>>

Entries(i) == S.A[i]
Has(i, j) == \E k \in DOMAIN S.A[i] : S.A[i][k][1] = j
RowsOf(j) == {i \in S.R : Has(i, j)}
a(i, j) == Coef(S.A[i], j)
Column(j) == LET rs == Ordered(RowsOf(j)) IN [k \in DOMAIN rs |-> <<rs[k], a(rs[k], j)>>]
Others(i, j) == SelectSeq(S.A[i], LAMBDA e : e[1] # j)
Push(r) == hist' = Append(hist, r)
Give(st) == S' = [S EXCEPT !.st = st] /\ UNCHANGED <<orig, kind, hist, tightened>>
Same == UNCHANGED <<orig, kind, tightened>>

\* ------------------------------------------------------------ activities
\* smallest and largest value of a sequence of entries over the bounds
Lowest(es) == FoldLeft(LAMBDA v, e : LET b == IF RLt("0", e[2]) THEN S.lb[e[1]] ELSE S.ub[e[1]]
                                      IN IF v = NegInf \/ ~RFin(b) THEN NegInf ELSE RAdd(v, RMul(e[2], b)), "0", es)
Highest(es) == FoldLeft(LAMBDA v, e : LET b == IF RLt("0", e[2]) THEN S.ub[e[1]] ELSE S.lb[e[1]]
                                       IN IF v = Inf \/ ~RFin(b) THEN Inf ELSE RAdd(v, RMul(e[2], b)), "0", es)
\* what row i says about x_j, given the bounds of the others
ImpliedUp(i, j) == LET v == a(i, j) o == Others(i, j)
                       s == IF RLt("0", v) THEN S.rhs[i] ELSE S.lhs[i]
                       w == IF RLt("0", v) THEN Lowest(o) ELSE Highest(o)
                   IN IF RFin(s) /\ RFin(w) THEN RDiv(RSub(s, w), v) ELSE Inf
ImpliedLow(i, j) == LET v == a(i, j) o == Others(i, j)
                        s == IF RLt("0", v) THEN S.lhs[i] ELSE S.rhs[i]
                        w == IF RLt("0", v) THEN Highest(o) ELSE Lowest(o)
                    IN IF RFin(s) /\ RFin(w) THEN RDiv(RSub(s, w), v) ELSE NegInf
\* the bounds of x_j follow from row i
ImpliedFree(i, j) == /\ S.lb[j] = NegInf \/ RLe(S.lb[j], ImpliedLow(i, j))
                     /\ S.ub[j] = Inf \/ RLe(ImpliedUp(i, j), S.ub[j])

\* -------------------------------------------------------------- reductions
\* a row that can never be violated
Redundant == \E i \in S.R :
    /\ RLe(S.lhs[i], Lowest(S.A[i])) /\ RLe(Highest(S.A[i]), S.rhs[i])
    /\ S' = [S EXCEPT !.R = @ \ {i}]
    /\ Push([k |-> "row", i |-> i]) /\ Same
\* one that always is
Violated == \E i \in S.R :
    /\ RLt(S.rhs[i], Lowest(S.A[i])) \/ RLt(Highest(S.A[i]), S.lhs[i])
    /\ Give("inf")
IsCrossed == \E j \in S.C : RLt(S.ub[j], S.lb[j])
\* a side that cannot be reached
RelaxSide == \E i \in S.R :
    \/ /\ RFin(S.lhs[i]) /\ RLe(S.lhs[i], Lowest(S.A[i])) /\ RFin(S.rhs[i]) /\ ~RLe(Highest(S.A[i]), S.rhs[i])
       /\ S.lhs[i] # S.rhs[i]
       /\ S' = [S EXCEPT !.lhs[i] = NegInf] /\ UNCHANGED hist /\ Same
    \/ /\ RFin(S.rhs[i]) /\ RLe(Highest(S.A[i]), S.rhs[i]) /\ RFin(S.lhs[i]) /\ ~RLe(S.lhs[i], Lowest(S.A[i]))
       /\ S.lhs[i] # S.rhs[i]
       /\ S' = [S EXCEPT !.rhs[i] = Inf] /\ UNCHANGED hist /\ Same
\* records for the bounds of x_j that row i tightened to lo and hi
BoundRecs(i, j, lo, hi) ==
    (IF RLt(S.lb[j], lo) THEN <<[k |-> "bound", i |-> i, j |-> j, row |-> S.A[i], up |-> FALSE, b |-> lo]>> ELSE <<>>) \o
    (IF RLt(hi, S.ub[j]) THEN <<[k |-> "bound", i |-> i, j |-> j, row |-> S.A[i], up |-> TRUE, b |-> hi]>> ELSE <<>>)
SingletonRow == \E i \in S.R :
    /\ Len(S.A[i]) = 1
    /\ LET j == S.A[i][1][1]
       IN /\ hist' = hist \o BoundRecs(i, j, StonLo(S, i), StonHi(S, i)) \o <<[k |-> "row", i |-> i]>>
          /\ S' = TightenBy(S, i)
    /\ Same
FixedRec(j, v) == [k |-> "fix", j |-> j, v |-> v, c |-> S.c[j], col |-> Column(j)]
FixedCol == \E j \in S.C :
    /\ S.lb[j] = S.ub[j]
    /\ S' = FixCol(S, j, S.lb[j]) /\ Push(FixedRec(j, S.lb[j])) /\ Same
\* nothing keeps x_j from going down (up), and it does not cost anything to
DualFix == \E j \in S.C :
    \/ /\ RLe("0", S.c[j]) /\ \A i \in RowsOf(j) : ~DownLock(S, i, j)
       /\ \/ /\ RFin(S.lb[j])
             /\ S' = FixCol(S, j, S.lb[j]) /\ Push(FixedRec(j, S.lb[j])) /\ Same
          \/ S.lb[j] = NegInf /\ S.c[j] # "0" /\ Give("unb")
          \/ /\ S.lb[j] = NegInf /\ S.c[j] = "0"
             /\ LET rs == Ordered(RowsOf(j))
                IN Push([k |-> "down", j |-> j, ub |-> S.ub[j], rows |-> [q \in DOMAIN rs |-> [i |-> rs[q], a |-> a(rs[q], j), row |-> Others(rs[q], j), lhs |-> S.lhs[rs[q]], rhs |-> S.rhs[rs[q]]]]])
             /\ S' = [S EXCEPT !.R = @ \ RowsOf(j), !.C = @ \ {j}] /\ Same
    \/ /\ RLe(S.c[j], "0") /\ \A i \in RowsOf(j) : ~UpLock(S, i, j)
       /\ \/ /\ RFin(S.ub[j])
             /\ S' = FixCol(S, j, S.ub[j]) /\ Push(FixedRec(j, S.ub[j])) /\ Same
          \/ S.ub[j] = Inf /\ S.c[j] # "0" /\ Give("unb")
          \/ /\ S.ub[j] = Inf /\ S.c[j] = "0"
             /\ LET rs == Ordered(RowsOf(j))
                IN Push([k |-> "up", j |-> j, lb |-> S.lb[j], rows |-> [q \in DOMAIN rs |-> [i |-> rs[q], a |-> a(rs[q], j), row |-> Others(rs[q], j), lhs |-> S.lhs[rs[q]], rhs |-> S.rhs[rs[q]]]]])
             /\ S' = [S EXCEPT !.R = @ \ RowsOf(j), !.C = @ \ {j}] /\ Same
\* the equality row i of T serves to eliminate x_k from T
RowPlus(u, f, v) == \* u + f v, entries by column
    LET cs == Ordered({u[q][1] : q \in DOMAIN u} \cup {v[q][1] : q \in DOMAIN v})
    IN SelectSeq([q \in DOMAIN cs |-> <<cs[q], RAdd(Coef(u, cs[q]), RMul(f, Coef(v, cs[q])))>>], LAMBDA e : e[2] # "0")
Eliminate(T, i, k) ==
    LET p == Coef(T.A[i], k)
        b == T.lhs[i]
        f(r) == RNeg(RDiv(Coef(T.A[r], k), p))
        in(r) == r # i /\ r \in T.R /\ Coef(T.A[r], k) # "0"
        g == RDiv(T.c[k], p)
    IN [T EXCEPT !.A = [r \in DOMAIN @ |-> IF in(r) THEN RowPlus(@[r], f(r), @[i]) ELSE @[r]],
                 !.lhs = [r \in DOMAIN @ |-> IF in(r) THEN Shift(@[r], RNeg(RMul(f(r), b))) ELSE @[r]],
                 !.rhs = [r \in DOMAIN @ |-> IF in(r) THEN Shift(@[r], RNeg(RMul(f(r), b))) ELSE @[r]],
                 !.c = [j \in DOMAIN @ |-> RSub(@[j], RMul(g, Coef(T.A[i], j)))],
                 !.off = RAdd(@, RMul(g, b)),
                 !.R = @ \ {i}, !.C = @ \ {k}]
SubRec(T, i, k) == [k |-> "sub", i |-> i, j |-> k, row |-> Others(i, k), p |-> a(i, k), b |-> T.lhs[i], c |-> S.c[k],
                    col |-> SelectSeq(Column(k), LAMBDA e : e[1] # i)]
\* an equation in two variables: x_k goes, its bounds become bounds of x_j
Doubleton == \E i \in S.R :
    /\ S.lhs[i] = S.rhs[i] /\ Len(S.A[i]) = 2
    /\ \E s \in {1, 2} :
         LET j == S.A[i][s][1] k == S.A[i][3 - s][1]
             lo == ImpliedLow(i, j) hi == ImpliedUp(i, j)
             T == [S EXCEPT !.lb[j] = RMax(@, lo), !.ub[j] = RMin(@, hi)]
         IN /\ S' = Eliminate(T, i, k)
            /\ hist' = hist \o BoundRecs(i, j, lo, hi) \o <<SubRec(T, i, k)>>
    /\ Same
\* a column singleton whose bounds follow from its row
ColSingleton == \E j \in S.C :
    /\ Cardinality(RowsOf(j)) = 1
    /\ LET i == CHOOSE q \in S.R : Has(q, j)
           y == RDiv(S.c[j], a(i, j)) \* what the multiplier of the row has to be
           side == IF S.lhs[i] = S.rhs[i] THEN S.lhs[i] ELSE IF RLt("0", y) THEN S.lhs[i] ELSE S.rhs[i]
           T == [S EXCEPT !.lhs[i] = side, !.rhs[i] = side]
       IN /\ ImpliedFree(i, j)
          /\ \/ /\ S.lhs[i] = S.rhs[i] \/ (y # "0" /\ RFin(side))
                /\ S' = Eliminate(T, i, j) /\ Push(SubRec(T, i, j)) /\ Same
             \/ y # "0" /\ ~RFin(side) /\ Give("unb")
             \/ /\ S.lhs[i] # S.rhs[i] /\ y = "0"
                /\ Push([k |-> "loose", i |-> i, j |-> j, p |-> a(i, j), row |-> Others(i, j), lhs |-> S.lhs[i], rhs |-> S.rhs[i], lb |-> S.lb[j], ub |-> S.ub[j]])
                /\ S' = [S EXCEPT !.R = @ \ {i}, !.C = @ \ {j}] /\ Same
\* a column singleton of an equation is a slack of it
Slackness == \E j \in S.C :
    /\ Cardinality(RowsOf(j)) = 1
    /\ LET i == CHOOSE q \in S.R : Has(q, j)
           p == a(i, j)
           g == RDiv(S.c[j], p)
           big == IF RLt("0", p) THEN S.ub[j] ELSE S.lb[j]
           small == IF RLt("0", p) THEN S.lb[j] ELSE S.ub[j]
           b == S.lhs[i]
       IN /\ S.lhs[i] = S.rhs[i]
          /\ S' = [S EXCEPT !.A[i] = Others(i, j),
                            !.lhs[i] = IF RFin(big) THEN RSub(b, RMul(p, big)) ELSE NegInf,
                            !.rhs[i] = IF RFin(small) THEN RSub(b, RMul(p, small)) ELSE Inf,
                            !.c = [q \in DOMAIN @ |-> RSub(@[q], RMul(g, a(i, q)))],
                            !.off = RAdd(@, RMul(g, b)), !.C = @ \ {j}]
          /\ Push([k |-> "slack", i |-> i, j |-> j, p |-> p, row |-> Others(i, j), b |-> b, c |-> S.c[j]]) /\ Same
ParallelRows == \E i, q \in S.R :
    /\ i # q /\ Len(S.A[i]) > 0
    /\ LET r == RDiv(Coef(S.A[q], S.A[i][1][1]), S.A[i][1][2])
           lo == IF RLt("0", r) THEN S.lhs[q] ELSE S.rhs[q]
           hi == IF RLt("0", r) THEN S.rhs[q] ELSE S.lhs[q]
           l == IF RFin(lo) THEN RDiv(lo, r) ELSE NegInf
           u == IF RFin(hi) THEN RDiv(hi, r) ELSE Inf
       IN /\ r # "0" /\ RowPlus(S.A[q], RNeg(r), S.A[i]) = <<>>
          /\ IF RLt(RMin(u, S.rhs[i]), RMax(l, S.lhs[i])) THEN Give("inf")
             ELSE /\ S' = [S EXCEPT !.lhs[i] = RMax(@, l), !.rhs[i] = RMin(@, u), !.R = @ \ {q}]
                  /\ Push([k |-> "parrow", i |-> i, q |-> q, r |-> r, lo |-> RLt(S.lhs[i], l), hi |-> RLt(u, S.rhs[i])]) /\ Same
Times(r, v) == IF RFin(v) THEN RMul(r, v) ELSE IF RLt("0", r) THEN v ELSE IF v = Inf THEN NegInf ELSE Inf
Plus(u, v) == IF RFin(u) /\ RFin(v) THEN RAdd(u, v) ELSE IF RFin(u) THEN v ELSE u
ParallelCols == \E j, q \in S.C :
    /\ j # q /\ RowsOf(j) = RowsOf(q) /\ RowsOf(j) # {}
    /\ LET i0 == CHOOSE i \in RowsOf(j) : TRUE
           r == RDiv(a(i0, q), a(i0, j))
           d == RSub(S.c[q], RMul(r, S.c[j]))
       IN /\ \A i \in RowsOf(j) : a(i, q) = RMul(r, a(i, j))
          /\ \/ \* they cost the same: one variable x_j + r x_q
                /\ d = "0"
                /\ S' = [S EXCEPT !.lb[j] = Plus(@, Times(r, IF RLt("0", r) THEN S.lb[q] ELSE S.ub[q])),
                                  !.ub[j] = Plus(@, Times(r, IF RLt("0", r) THEN S.ub[q] ELSE S.lb[q])),
                                  !.A = [i \in DOMAIN @ |-> Others(i, q)], !.C = @ \ {q}]
                /\ Push([k |-> "parcol", j |-> j, q |-> q, r |-> r, lbj |-> S.lb[j], ubj |-> S.ub[j], lbq |-> S.lb[q], ubq |-> S.ub[q]]) /\ Same
             \/ \* x_q costs more than x_j, which can do all its work
                /\ RLt("0", d)
                /\ IF RLt("0", r) THEN S.ub[j] = Inf ELSE S.lb[j] = NegInf
                /\ IF RFin(S.lb[q]) THEN S' = FixCol(S, q, S.lb[q]) /\ Push(FixedRec(q, S.lb[q])) /\ Same ELSE Give("unb")
             \/ /\ RLt(d, "0")
                /\ IF RLt("0", r) THEN S.lb[j] = NegInf ELSE S.ub[j] = Inf
                /\ IF RFin(S.ub[q]) THEN S' = FixCol(S, q, S.ub[q]) /\ Push(FixedRec(q, S.ub[q])) /\ Same ELSE Give("unb")
Propagate ==
    /\ tightened < MaxTighten /\ tightened' = tightened + 1
    /\ \E i \in S.R : Len(S.A[i]) > 1 /\ \E e \in {S.A[i][q] : q \in DOMAIN S.A[i]} :
         LET j == e[1] lo == ImpliedLow(i, j) hi == ImpliedUp(i, j)
         IN \/ /\ RLt(S.lb[j], lo) /\ S' = [S EXCEPT !.lb[j] = lo]
               /\ hist' = hist \o BoundRecs(i, j, lo, Inf)
            \/ /\ RLt(hi, S.ub[j]) /\ S' = [S EXCEPT !.ub[j] = hi]
               /\ hist' = hist \o BoundRecs(i, j, NegInf, hi)
    /\ UNCHANGED <<orig, kind>>

Init == /\ \E t \in Lo..Hi : orig = IF Sampled THEN Sample(t) ELSE Problem(t)
        /\ kind = Certified(orig, Solution(orig, 0), "0")
        /\ S = Start(orig) /\ hist = <<>> /\ tightened = 0
\* bounds that cross are noticed at once
Next == S.st = "ok" /\ IF IsCrossed THEN Give("inf") ELSE
        \/ Redundant \/ Violated \/ RelaxSide \/ SingletonRow \/ FixedCol \/ DualFix \/ Doubleton
        \/ ColSingleton \/ Slackness \/ ParallelRows \/ ParallelCols \/ Propagate
Spec == Init /\ [][Next]_pvars

\* --------------------------------------------------------------- postsolve
\* s: [x, y, z], with "0" for what is not known yet
Val(row, x) == RowAct(row, x)
\* the interval that a row with a x_j in it leaves to x_j
RowLow(r, x) == LET v == RSub(IF RLt("0", r.a) THEN r.lhs ELSE r.rhs, Val(r.row, x)) IN RDiv(v, r.a)
RowUp(r, x) == LET v == RSub(IF RLt("0", r.a) THEN r.rhs ELSE r.lhs, Val(r.row, x)) IN RDiv(v, r.a)
Undo(s, r) ==
    CASE r.k = "row" -> [s EXCEPT !.y[r.i] = "0"]
      [] r.k = "fix" -> [s EXCEPT !.x[r.j] = r.v,
                                  !.z[r.j] = RSub(r.c, FoldLeft(LAMBDA t, e : RAdd(t, RMul(e[2], s.y[e[1]])), "0", r.col))]
      [] r.k = "bound" ->
           IF s.x[r.j] = r.b /\ (IF r.up THEN RLt(s.z[r.j], "0") ELSE RLt("0", s.z[r.j]))
           THEN LET f == RDiv(s.z[r.j], Coef(r.row, r.j))
                IN [s EXCEPT !.y[r.i] = RAdd(@, f),
                             !.z = [k \in DOMAIN @ |-> IF k = r.j THEN "0" ELSE RSub(@[k], RMul(f, Coef(r.row, k)))]]
           ELSE s
      [] r.k = "sub" ->
           [s EXCEPT !.x[r.j] = RDiv(RSub(r.b, Val(r.row, s.x)), r.p), !.z[r.j] = "0",
                     !.y[r.i] = RDiv(RSub(r.c, FoldLeft(LAMBDA t, e : RAdd(t, RMul(e[2], s.y[e[1]])), "0", r.col)), r.p)]
      [] r.k = "slack" ->
           LET y == RAdd(s.y[r.i], RDiv(r.c, r.p))
           IN [s EXCEPT !.x[r.j] = RDiv(RSub(r.b, Val(r.row, s.x)), r.p), !.y[r.i] = y, !.z[r.j] = RSub(r.c, RMul(r.p, y))]
      [] r.k = "loose" ->
           LET v == Val(r.row, s.x)
               w == IF RFin(r.lhs) THEN RDiv(RSub(r.lhs, v), r.p) ELSE IF RFin(r.rhs) THEN RDiv(RSub(r.rhs, v), r.p)
                    ELSE RMax(RMin("0", r.ub), r.lb)
           IN [s EXCEPT !.x[r.j] = w, !.y[r.i] = "0", !.z[r.j] = "0"]
      [] r.k = "down" ->
           LET v == FoldLeft(LAMBDA t, q : IF RFin(IF RLt("0", q.a) THEN q.rhs ELSE q.lhs) THEN RMin(t, RowUp(q, s.x)) ELSE t, r.ub, r.rows)
           IN [s EXCEPT !.x[r.j] = IF RFin(v) THEN v ELSE "0", !.z[r.j] = "0",
                        !.y = [i \in DOMAIN @ |-> IF \E q \in DOMAIN r.rows : r.rows[q].i = i THEN "0" ELSE @[i]]]
      [] r.k = "up" ->
           LET v == FoldLeft(LAMBDA t, q : IF RFin(IF RLt("0", q.a) THEN q.lhs ELSE q.rhs) THEN RMax(t, RowLow(q, s.x)) ELSE t, r.lb, r.rows)
           IN [s EXCEPT !.x[r.j] = IF RFin(v) THEN v ELSE "0", !.z[r.j] = "0",
                        !.y = [i \in DOMAIN @ |-> IF \E q \in DOMAIN r.rows : r.rows[q].i = i THEN "0" ELSE @[i]]]
      [] r.k = "parrow" ->
           IF (r.lo /\ RLt("0", s.y[r.i])) \/ (r.hi /\ RLt(s.y[r.i], "0"))
           THEN [s EXCEPT !.y[r.q] = RDiv(s.y[r.i], r.r), !.y[r.i] = "0"]
           ELSE [s EXCEPT !.y[r.q] = "0"]
      [] r.k = "parcol" ->
           LET w == s.x[r.j]
               xj == IF RFin(r.lbj) THEN r.lbj ELSE IF RFin(r.ubj) THEN r.ubj ELSE "0"
               t == RDiv(RSub(w, xj), r.r)
               xq == RMin(RMax(t, r.lbq), r.ubq)
           IN [s EXCEPT !.x[r.q] = xq, !.x[r.j] = RSub(w, RMul(r.r, xq)), !.z[r.q] = RMul(r.r, s.z[r.j])]
Back(h, s) == FoldRight(LAMBDA r, t : Undo(t, r), h, s)

\* --------------------------------------------------------------- soundness
Compact == LET rows == Ordered(S.R) cols == Ordered(S.C)
               at(j) == CHOOSE q \in DOMAIN cols : cols[q] = j
           IN [m |-> Len(rows), n |-> Len(cols),
               A |-> [i \in DOMAIN rows |-> [k \in DOMAIN S.A[rows[i]] |-> <<at(S.A[rows[i]][k][1]), S.A[rows[i]][k][2]>>]],
               lhs |-> [i \in DOMAIN rows |-> S.lhs[rows[i]]], rhs |-> [i \in DOMAIN rows |-> S.rhs[rows[i]]],
               lb |-> [j \in DOMAIN cols |-> S.lb[cols[j]]], ub |-> [j \in DOMAIN cols |-> S.ub[cols[j]]],
               c |-> [j \in DOMAIN cols |-> S.c[cols[j]]], off |-> S.off]
Spread(v, set, n) == LET o == Ordered(set) IN [k \in 1..n |-> IF k \in set THEN v[CHOOSE q \in DOMAIN o : o[q] = k] ELSE "0"]
\* the solver decides every problem (if it did not, nothing would be checked)
Decided == kind # "none"
Sound ==
    CASE S.st = "inf" -> kind = "inf"
      [] S.st = "unb" -> kind \in {"inf", "unb"}
      [] OTHER ->
           \A f \in {0, 1} :
             LET R == Compact
                 k == Solution(R, f)
             IN /\ Certified(R, k, "0") = kind
                /\ kind = "opt" =>
                     LET s == Back(hist, [x |-> Spread(k.x, S.C, orig.n), y |-> Spread(k.y, S.R, orig.m), z |-> Spread(k.z, S.C, orig.n)])
                     IN /\ KKT(orig, s.x, s.y, s.z, "0")
                        /\ Obj(orig, s.x) = RAdd(Obj(R, k.x), R.off)
\* nothing is left behind: a problem in which no reduction can do anything has no trivial parts
Shrinks == [][Cardinality(S'.R) <= Cardinality(S.R) /\ Cardinality(S'.C) <= Cardinality(S.C)]_pvars
=============================================================================
