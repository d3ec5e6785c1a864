------------------------------ MODULE ApiGen ------------------------------
(***************************************************************************)
(* Every history of API calls of a given length that PslpApi allows.  TLC  *)
(* prints each of them once; the driver replays them into the library.     *)
(* The verdict of a run is the library's to decide, so it is left out here *)
(* (after a verdict without a reduced problem the driver skips the calls   *)
(* that need one).                                                         *)
(***************************************************************************)
EXTENDS PslpApi, TLC, Naturals, SequencesExt
CONSTANT MaxLen
VARIABLE hist
gvars == <<inst, caller, hist>>

Do(op) == hist' = Append(hist, op)
\* handles are interchangeable: a new one is always the smallest that was never used, or a free one
\* that was used before
Used(h) == \E i \in DOMAIN hist : hist[i][2] = h
Fresh(h) == Used(h) \/ \A g \in Handles : g < h => Used(g)

GenInit == ApiInit /\ hist = <<>>
GenNext ==
    /\ Len(hist) < MaxLen
    /\ \E h \in Handles :
         \/ Fresh(h) /\ \E p \in Problems : New(h, p, TRUE, 0) /\ Do(<<"N", h, p>>)
         \/ Run(h, "reduced", 0) /\ Do(<<"R", h, 0>>)
         \/ Post(h, 0) /\ Do(<<"P", h, 0>>)
         \/ View(h) /\ Do(<<"V", h, 0>>)
         \/ Free(h) /\ Do(<<"F", h, 0>>)
         \/ h \in Problems /\ caller[h] = "original" /\ (\E g \in Handles : inst[g].prob = h)
              /\ \/ Scribble(h) /\ Do(<<"S", 0, h>>)
                 \/ \E q \in Problems : Reuse(h, q) /\ Do(<<"X", h, q>>)
GenSpec == GenInit /\ [][GenNext]_gvars
\* a history is worth replaying when it has at least one run, and then something else
Worth == \E i \in DOMAIN hist : hist[i][1] = "R" /\ i < Len(hist)
Emit == (Len(hist) = MaxLen /\ Worth) => PrintT(FoldLeft(LAMBDA a, o : a \o " " \o o[1] \o "," \o ToString(o[2]) \o "," \o ToString(o[3]), "HIST", hist))
\* the specification's own sanity: only what was built and not freed is alive, and nothing is
\* presolved twice
TypeOK == \A h \in Handles : /\ inst[h].st \in {"none", "built"} \cup Verdicts
                             /\ (inst[h].st = "none") = (inst[h].prob = 0)
=============================================================================
