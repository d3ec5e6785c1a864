------------------------------ MODULE RatTest ------------------------------
EXTENDS Rat, Integers, TLC
G == -3..3
Q(p, q) == RDiv(RInt(p), RInt(q))
ASSUME \A a, b \in G : /\ RAdd(RInt(a), RInt(b)) = RInt(a + b)
                       /\ RSub(RInt(a), RInt(b)) = RInt(a - b)
                       /\ RMul(RInt(a), RInt(b)) = RInt(a * b)
                       /\ RLe(RInt(a), RInt(b)) = (a <= b)
ASSUME \A p, r \in G, q, s \in {1, 2, 3, 5} :
          /\ RAdd(Q(p, q), Q(r, s)) = Q(p * s + r * q, q * s)
          /\ RSub(Q(p, q), Q(r, s)) = Q(p * s - r * q, q * s)
          /\ RMul(Q(p, q), Q(r, s)) = Q(p * r, q * s)
          /\ RLe(Q(p, q), Q(r, s)) = (p * s <= r * q)
          /\ r # 0 => RDiv(Q(p, q), Q(r, s)) = Q(p * s, q * r)
ASSUME \A a \in G : RLe(NegInf, RInt(a)) /\ RLe(RInt(a), Inf) /\ ~RLe(Inf, RInt(a))
                    /\ ~RLe(RInt(a), NegInf) /\ RFin(RInt(a))
ASSUME ~RFin(Inf) /\ ~RFin(NegInf) /\ ~RFin("nan") /\ ~RLe("nan", "0") /\ ~RLe("0", "nan")
ASSUME RMul("6004799503160661/18014398509481984", "3") = "18014398509481983/18014398509481984"
ASSUME \A p \in -12..12, q \in {1, 2, 3, 5} : RFloor(Q(p, q)) = RInt(p \div q)  \* \div rounds down
VARIABLE v
Init == v = 0
Next == UNCHANGED v
=============================================================================
