---------------------------- MODULE IsolationMC ----------------------------
(* Ownership modelled with a heap: cells hold values, every handle of the   *)
(* user and every field of the simulation points to a cell; handing over,   *)
(* measuring (metadata) and returning results allocate new cells. TLC shows *)
(* for all histories up to a length that this implementation refines the    *)
(* value semantics of Isolation, and that no two owners share a cell. With  *)
(* Copy = FALSE (no copy on hand-over) the refinement is refuted.           *)
EXTENDS Isolation, Json
CONSTANTS Steps, Vals, Copy
VARIABLES heap, orig, live, metas, spec, n
vars == <<heap, orig, live, metas, spec, n>>
Fields == {"a", "od"}
New(v) == Len(heap) + 1
Init == /\ heap = <<0, 1, 0, 0>>
        /\ orig = <<1, 2>> /\ live = <<[a |-> 3, od |-> 4]>> /\ metas = <<>> /\ n = 0
        /\ spec = [orig |-> <<0, 1>>, live |-> <<[a |-> 0, od |-> 0]>>, metas |-> <<>>, args |-> <<>>, outs |-> <<>>]
Do(e) == spec' = Apply(spec, e) /\ n' = n + 1
Set == \E i \in DOMAIN orig, f \in Fields :
         /\ heap' = IF Copy THEN Append(heap, heap[orig[i]]) ELSE heap
         /\ live' = [live EXCEPT ![1][f] = IF Copy THEN Len(heap) + 1 ELSE orig[i]]
         /\ UNCHANGED <<orig, metas>> /\ Do([op |-> "set", m |-> 1, f |-> f, i |-> i])
MutOrig == \E i \in DOMAIN orig, v \in Vals :
         /\ heap' = [heap EXCEPT ![orig[i]] = v] /\ UNCHANGED <<orig, live, metas>>
         /\ Do([op |-> "mut_orig", i |-> i, val |-> v])
MutLive == \E f \in Fields, v \in Vals :
         /\ heap' = [heap EXCEPT ![live[1][f]] = v] /\ UNCHANGED <<orig, live, metas>>
         /\ Do([op |-> "mut_live", m |-> 1, f |-> f, val |-> v])
MutMeta == \E i \in DOMAIN metas, f \in Fields, v \in Vals :
         /\ heap' = [heap EXCEPT ![metas[i][f]] = v] /\ UNCHANGED <<orig, live, metas>>
         /\ Do([op |-> "mut_meta", i |-> i, f |-> f, val |-> v])
Measure == \E v \in Vals :      \* the noise of the distortions moves on to state v
         /\ heap' = [heap EXCEPT ![live[1].od] = v] \o <<heap[live[1].a], v>>
         /\ metas' = Append(metas, [a |-> Len(heap) + 1, od |-> Len(heap) + 2])
         /\ UNCHANGED <<orig, live>>
         /\ Do([op |-> "measure", m |-> 1, after |-> [od |-> v, pd |-> 0, rd |-> 0, sensor |-> 0], given |-> [x \in {} |-> 0], out |-> 0])
Next == n < Steps /\ (Set \/ MutOrig \/ MutLive \/ MutMeta \/ Measure)
Refines == /\ \A i \in DOMAIN orig : heap[orig[i]] = spec.orig[i]
           /\ \A f \in Fields : heap[live[1][f]] = spec.live[1][f]
           /\ \A i \in DOMAIN metas : \A f \in Fields : heap[metas[i][f]] = spec.metas[i][f]
Cells == {<<"o", i, orig[i]>> : i \in DOMAIN orig} \cup {<<"l", f, live[1][f]>> : f \in Fields}
         \cup UNION {{<<"m", <<i, f>>, metas[i][f]>> : f \in Fields} : i \in DOMAIN metas}
NotShared == \A x, y \in Cells : x # y => x[3] # y[3]
=============================================================================
