-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic over an unbounded carrier.  A rational is     *)
(* written as a string "p" or "p/q" (every finite IEEE double is one), so  *)
(* nothing is rounded, wrapped or snapped: TLC integers have 32 bits.      *)
(* The two infinities are "inf" and "-inf"; "nan" is not a rational.       *)
(* The operators are given by Java overrides (java/Rat.java, BigInteger);  *)
(* RatTest.tla checks the field and order axioms on a grid against TLC's   *)
(* own integers, so the override is itself checked by TLC.                 *)
(***************************************************************************)
LOCAL INSTANCE Integers

RAdd(a, b) == CHOOSE s \in STRING : TRUE   \* overridden: a + b (finite)
RSub(a, b) == CHOOSE s \in STRING : TRUE   \* overridden: a - b (finite)
RMul(a, b) == CHOOSE s \in STRING : TRUE   \* overridden: a * b (finite)
RDiv(a, b) == CHOOSE s \in STRING : TRUE   \* overridden: a / b (finite, b # 0)
RLe(a, b)  == CHOOSE t \in BOOLEAN : TRUE  \* overridden: a <= b, infinities included
RFin(a)    == CHOOSE t \in BOOLEAN : TRUE  \* overridden: a is a (finite) rational
RInt(i)    == CHOOSE s \in STRING : TRUE   \* overridden: the integer i as a rational
RFloor(a)  == CHOOSE s \in STRING : TRUE   \* overridden: the largest integer <= a (finite)

RLt(a, b) == ~RLe(b, a)
REq(a, b) == RLe(a, b) /\ RLe(b, a)
RNeg(a)   == RSub("0", a)
RAbs(a)   == IF RLe("0", a) THEN a ELSE RNeg(a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
Inf    == "inf"
NegInf == "-inf"
=============================================================================
