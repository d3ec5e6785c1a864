------------------------------ MODULE SmallLP ------------------------------
(***************************************************************************)
(* The problems of a small scope: Rows x Cols, with the coefficients,      *)
(* sides, bounds and costs below.  Problem(k) is the k-th of them, for     *)
(* scopes whose size fits a TLC integer; Sample(s) a pseudo-random one of  *)
(* any scope.                                                              *)
(***************************************************************************)
EXTENDS LP
CONSTANTS Rows, Cols

Coefs == <<"0", "1", "-1", "2">>
Sides == << <<NegInf, "1">>, <<"0", Inf>>, <<"1", "1">>, <<"0", "0">>, <<"-1", "2">>, <<NegInf, "-1">>, <<"2", Inf>> >>
Boxes == << <<"0", Inf>>, <<NegInf, Inf>>, <<"0", "1">>, <<NegInf, "1">>, <<"-1", "2">>, <<"1", "1">> >>
Costs == <<"0", "1", "-1">>

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
NCoefs == Pow(Len(Coefs), Rows * Cols)
NSides == Pow(Len(Sides), Rows)
NBoxes == Pow(Len(Boxes) * Len(Costs), Cols)
\* d(kind, at): which element of the list is taken there (from 0)
Make(coef(_, _), side(_), box(_), cost(_)) ==
    LET row(i) == SelectSeq([j \in 1..Cols |-> <<j, Coefs[1 + coef(i, j)]>>], LAMBDA e : e[2] # "0")
    IN [m |-> Rows, n |-> Cols, A |-> [i \in 1..Rows |-> row(i)],
        lhs |-> [i \in 1..Rows |-> Sides[1 + side(i)][1]], rhs |-> [i \in 1..Rows |-> Sides[1 + side(i)][2]],
        lb |-> [j \in 1..Cols |-> Boxes[1 + box(j)][1]], ub |-> [j \in 1..Cols |-> Boxes[1 + box(j)][2]],
        c |-> [j \in 1..Cols |-> Costs[1 + cost(j)]], off |-> "0"]
Digit(k, b, at) == (k \div Pow(b, at)) % b
ScopeSize == NCoefs * NSides * NBoxes
Problem(k) ==
    LET a == k % NCoefs
        s == (k \div NCoefs) % NSides
        x == k \div (NCoefs * NSides)
    IN Make(LAMBDA i, j : Digit(a, Len(Coefs), (i - 1) * Cols + j - 1),
            LAMBDA i : Digit(s, Len(Sides), i - 1),
            LAMBDA j : Digit(x, Len(Boxes) * Len(Costs), j - 1) % Len(Boxes),
            LAMBDA j : Digit(x, Len(Boxes) * Len(Costs), j - 1) \div Len(Boxes))
\* three small congruential generators (Wichmann and Hill), advanced t times
RECURSIVE Advance(_, _)
Advance(g, t) == IF t = 0 THEN g ELSE Advance(<<(171 * g[1]) % 30269, (172 * g[2]) % 30307, (170 * g[3]) % 30323>>, t - 1)
Sample(s) ==
    LET g0 == <<1 + (s % 30268), 1 + ((s \div 7) % 30306), 1 + ((s * 31) % 30322)>>
        N == Rows * Cols + Rows + 2 * Cols
        RECURSIVE Seq_(_, _)
        Seq_(g, t) == IF t = 0 THEN <<>> ELSE LET h == Advance(g, 3) IN <<(h[1] + h[2] + h[3]) % 30269>> \o Seq_(h, t - 1)
        d == Seq_(g0, N)
        R2(k, b) == (d[k] * b) \div 30269
    IN Make(LAMBDA i, j : R2((i - 1) * Cols + j, Len(Coefs)),
            LAMBDA i : R2(Rows * Cols + i, Len(Sides)),
            LAMBDA j : R2(Rows * Cols + Rows + j, Len(Boxes)),
            LAMBDA j : R2(Rows * Cols + Rows + Cols + j, Len(Costs)))
=============================================================================
