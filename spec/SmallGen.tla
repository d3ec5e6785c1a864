------------------------------ MODULE SmallGen ------------------------------
(***************************************************************************)
(* Writes problems of a small scope to a file, for the driver to replay:   *)
(* every Stride-th of the scope from Off on, or Count pseudo-random ones.  *)
(***************************************************************************)
EXTENDS SmallLP, Json, IOUtils
CONSTANTS Off, Stride, Count, Sampled
Nth(t) == IF Sampled THEN Sample(Off + t) ELSE Problem((Off + (t - 1) * Stride) % ScopeSize)
Total == IF Sampled THEN Count ELSE LET all == (ScopeSize - Off + Stride - 1) \div Stride IN IF all < Count THEN all ELSE Count
ASSUME ndJsonSerialize(IOEnv.OUT, [t \in 1..Total |-> Nth(t)])
VARIABLE v
Init == v = 0
Next == UNCHANGED v
=============================================================================
