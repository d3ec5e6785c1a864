-------------------------------- MODULE Left --------------------------------
(***************************************************************************)
(* What an enabled reduction would still find in a problem: the patterns   *)
(* that it is documented to remove wherever they occur.  A presolve goes   *)
(* round and round until a whole cycle (trivial, fast, medium reductions)  *)
(* removes less than a twentieth of the nonzeros; with at most 18 of them  *)
(* left that means none at all (no reduction adds nonzeros), so every      *)
(* reduction has seen the problem that comes out and found nothing in it.  *)
(* S is a state of Trivial, all of whose rows have two or more entries.    *)
(***************************************************************************)
EXTENDS Trivial

CycleBlind == 18
\* what two ways of summing up may differ by
Tight == "1/1000000"

\* ------------------------------------------------------------ fixed variables
FixedLeft(S) == \E j \in S.C : S.lb[j] = S.ub[j]

\* ------------------------------------------------------------------- dual fix
DualLeft(S) == \E j \in S.C :
    \/ RLe("0", S.c[j]) /\ \A i \in S.R : ~DownLock(S, i, j)
    \/ RLe(S.c[j], "0") /\ \A i \in S.R : ~UpLock(S, i, j)

\* --------------------------------------------------------- parallel rows, cols
Multiples(u, v) == DOMAIN u = DOMAIN v /\
    LET p == CHOOSE a \in DOMAIN u : TRUE
    IN \A b \in DOMAIN u : RMul(u[p], v[b]) = RMul(u[b], v[p])
\* They are looked up by a hash of the entries, scaled by the largest and rounded to six digits:
\* multiples meet there, unless an entry is on the verge of being rounded the other way
Largest(u) == u[CHOOSE a \in DOMAIN u : \A b \in DOMAIN u : RLe(RAbs(u[b]), RAbs(u[a]))]
Clear(u) == \A a \in DOMAIN u :
    LET t == RMul(RAbs(RDiv(u[a], Largest(u))), "1000000")
        f == RSub(t, RFloor(t))
    IN RLt(f, "49/100") \/ RLt("51/100", f)
\* in a family of vectors, the pairs that are surely found: all with that support are multiples
PairsOf(D, vec) ==
    {p \in D \X D : /\ p[1] < p[2]
                    /\ Multiples(vec[p[1]], vec[p[2]])
                    /\ Clear(vec[p[1]])
                    /\ \A q \in D : DOMAIN vec[q] = DOMAIN vec[p[1]] => Multiples(vec[p[1]], vec[q])}
RowsLeft(S) == PairsOf(S.R, [i \in S.R |-> RowVec(S, i)]) # {}
\* columns with costs of the same ratio are merged; otherwise one of them may end at a bound because
\* the other has none
ColsLeft(S) ==
    LET vec == [j \in S.C |-> ColVec(S, j)]
    IN \E p \in PairsOf(S.C, vec) :
         LET j == p[1]
             k == p[2]
             i == CHOOSE q \in DOMAIN vec[j] : TRUE
             r == RDiv(vec[k][i], vec[j][i])
             cj == RMul(r, S.c[j])
             gap == RSub(S.c[k], cj)
             up == RLt("0", r)
         IN \/ gap = "0"
            \/ /\ RLt(RMul("1/10000", RMax("1", RMax(RAbs(cj), RAbs(S.c[k])))), RAbs(gap))
               /\ IF RLt("0", gap)
                  THEN ~RFin(S.lb[k]) \/ ~RFin(IF up THEN S.ub[j] ELSE S.lb[j])
                  ELSE ~RFin(S.ub[k]) \/ ~RFin(IF up THEN S.lb[j] ELSE S.ub[j])

\* ------------------------------------------------------------------ activities
\* the entries of row i that are not in column j, and the least and largest value of their sum
Others(S, i, j) == SelectSeq(S.A[i], LAMBDA e : e[1] # j)
Least(S, e) == LET b == IF RLt("0", e[2]) THEN S.lb[e[1]] ELSE S.ub[e[1]] IN IF RFin(b) THEN RMul(e[2], b) ELSE NegInf
Most(S, e) == LET b == IF RLt("0", e[2]) THEN S.ub[e[1]] ELSE S.lb[e[1]] IN IF RFin(b) THEN RMul(e[2], b) ELSE Inf
RECURSIVE SumLeast(_, _)
SumLeast(S, es) == IF es = <<>> THEN "0"
                   ELSE LET a == Least(S, Head(es)) r == SumLeast(S, Tail(es)) IN IF RFin(a) /\ RFin(r) THEN RAdd(a, r) ELSE NegInf
RECURSIVE SumMost(_, _)
SumMost(S, es) == IF es = <<>> THEN "0"
                  ELSE LET a == Most(S, Head(es)) r == SumMost(S, Tail(es)) IN IF RFin(a) /\ RFin(r) THEN RAdd(a, r) ELSE Inf
\* the bounds on x_j that the rest of row i implies
RowHi(S, i, j) ==
    LET a == Coef(S.A[i], j)
        up == RLt("0", a)
        s == IF up THEN S.rhs[i] ELSE S.lhs[i]
        r == IF up THEN SumLeast(S, Others(S, i, j)) ELSE SumMost(S, Others(S, i, j))
    IN IF RFin(s) /\ RFin(r) THEN RDiv(RSub(s, r), a) ELSE Inf
RowLo(S, i, j) ==
    LET a == Coef(S.A[i], j)
        up == RLt("0", a)
        s == IF up THEN S.lhs[i] ELSE S.rhs[i]
        r == IF up THEN SumMost(S, Others(S, i, j)) ELSE SumLeast(S, Others(S, i, j))
    IN IF RFin(s) /\ RFin(r) THEN RDiv(RSub(s, r), a) ELSE NegInf
Scale(a, b) == RAdd("1", RAdd(RAbs(a), RAbs(b)))
SurelyLess(a, b) == RFin(a) /\ RFin(b) /\ RLt(RAdd(a, RMul(Tight, Scale(a, b))), b)
\* Problems in which nothing is ever rounded: all numbers are short binary fractions, and the
\* coefficients, by which it divides, are powers of two.  There equality counts too
Powers == {"1/8", "1/4", "1/2", "1", "2", "4", "8"}
Short(v) == ~RFin(v) \/ (RLe(RAbs(v), "1000000") /\ LET t == RMul(v, "1024") IN t = RFloor(t))
Unrounded(P) == /\ \A i \in 1..P.m : /\ Short(P.lhs[i]) /\ Short(P.rhs[i])
                                    /\ \A k \in DOMAIN P.A[i] : RAbs(P.A[i][k][2]) \in Powers
                /\ \A j \in 1..P.n : Short(P.lb[j]) /\ Short(P.ub[j]) /\ Short(P.c[j])

\* ----------------------------------------------------------- column singletons
\* inner: bounds other than the infinite ones count too (they are those that the reduction saw)
\* exact: and nothing is rounded
StonLeft(S, inner, exact) == \E i \in S.R : \E k \in DOMAIN S.A[i] :
    LET j == S.A[i][k][1]
        a == S.A[i][k][2]
        c == S.c[j]
        pos == RLt("0", c)
        neg == RLt(c, "0")
        up == RLt("0", a)
        Tighter(u, v) == SurelyLess(u, v) \/ (exact /\ RFin(u) /\ u = v)
        above == S.ub[j] = Inf \/ (inner /\ Tighter(RowHi(S, i, j), S.ub[j]))
        below == S.lb[j] = NegInf \/ (inner /\ Tighter(S.lb[j], RowLo(S, i, j)))
        \* the side that the row has its optimum on, if the cost alone decides
        tolhs == (pos /\ up) \/ (neg /\ ~up)
        torhs == (pos /\ ~up) \/ (neg /\ up)
    IN ColCount(S, j) = 1 /\
         IF S.lhs[i] = S.rhs[i] THEN above \/ below
         ELSE \/ above /\ below
              \/ inner /\ ((tolhs /\ S.lhs[i] = NegInf) \/ (torhs /\ S.rhs[i] = Inf))
              \/ inner /\ ((pos /\ below) \/ (neg /\ above))

\* ---------------------------------------------------------- doubleton equations
RowsIn(S, j) == {i \in S.R : \E k \in DOMAIN S.A[i] : S.A[i][k][1] = j}
\* with a moderate pivot, and no room needed for fill-in
DtonLeft(S) == \E i \in S.R :
    /\ S.lhs[i] = S.rhs[i]
    /\ Len(S.A[i]) = 2
    /\ LET e == S.A[i][1]
           f == S.A[i][2]
           r == RAbs(RDiv(e[2], f[2]))
       IN /\ RLt(r, "999") /\ RLt("1/999", r)
          /\ Cardinality(RowsIn(S, e[1]) \ RowsIn(S, f[1])) <= 1
          /\ Cardinality(RowsIn(S, f[1]) \ RowsIn(S, e[1])) <= 1

\* In a problem with few rows no column ever outgrows the room that it has from the beginning, and
\* with moderate coefficients no pivot is refused: then none at all is left
Roomy(P) == /\ P.m <= 6
            /\ \A i \in 1..P.m : \A k \in DOMAIN P.A[i] : RLe(RAbs(P.A[i][k][2]), "5") /\ RLe("1/4", RAbs(P.A[i][k][2]))
AnyDton(S) == \E i \in S.R : S.lhs[i] = S.rhs[i] /\ Len(S.A[i]) = 2

\* ----------------------------------------------------------------- propagation
\* row i, all of whose entries are finite in one direction, has a side that the bounds imply ...
Redundant(S, i) ==
    LET lo == SumLeast(S, S.A[i])
        hi == SumMost(S, S.A[i])
    IN /\ RFin(lo) \/ RFin(hi)
       /\ S.lhs[i] # S.rhs[i]
       /\ (RFin(lo) /\ RFin(S.lhs[i]) /\ RLe(S.lhs[i], lo)) \/ (RFin(hi) /\ RFin(S.rhs[i]) /\ RLe(hi, S.rhs[i]))
\* ... or implies a bound where there is none (or, if fin, one that is tighter by far)
Implies(S, i, fin) ==
    /\ RFin(SumLeast(S, S.A[i])) \/ RFin(SumMost(S, S.A[i]))
    /\ \E k \in DOMAIN S.A[i] :
         LET j == S.A[i][k][1]
             hi == RowHi(S, i, j)
             lo == RowLo(S, i, j)
             Fair(v) == RFin(v) /\ RLt(RAbs(v), "1000000")
             Far(d, old) == RLt(RMul("1/50", RAdd("1", RAbs(old))), d)
         IN \/ Fair(hi) /\ (S.ub[j] = Inf \/ (fin /\ Far(RSub(S.ub[j], hi), S.ub[j])))
            \/ Fair(lo) /\ (S.lb[j] = NegInf \/ (fin /\ Far(RSub(lo, S.lb[j]), S.lb[j])))
=============================================================================
