------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* A solver for small linear programs (module LP), given by a Java         *)
(* override (java/Solve.java, an exact simplex).  It is not trusted: what  *)
(* it says counts when its certificate passes LP!Certified.                *)
(***************************************************************************)
\* flavour 0 and 1 try the columns in opposite orders
Solution(P, flavour) == CHOOSE k \in {[kind |-> "none"]} : TRUE  \* overridden
=============================================================================
