---------------------------- MODULE DeterminismMC ----------------------------
(* Simulations with a generator each and a cache that the last measurement left behind. TLC shows for all histories of    *)
(* building, setting, seeding, copying and measuring up to a length that an implementation which ignores what the cache    *)
(* held before fulfils every clause of Determinism; with Leak = TRUE (a result also depends on the cache), Shared = TRUE    *)
(* (one generator for all simulations) or Early = TRUE (numbers are drawn before a request is refused) it does not.        *)
EXTENDS Determinism
CONSTANTS Steps, Reqs, Bad, Leak, Shared, Early
VARIABLES gen, cfg, cache, spec, n, bad
Sims == 1..Len(gen)
G(m) == IF Shared THEN gen[1] ELSE gen[m]
Out(m, r) == 1000 * cfg[m] + 100 * G(m) + 10 * r + (IF Leak THEN cache[m] ELSE 0)
Init == gen = <<1>> /\ cfg = <<1>> /\ cache = <<0>> /\ n = 0 /\ bad = {} /\ spec = [cfg |-> <<<<1>>>>, gen |-> <<1>>, seen |-> <<>>]
Do(e) == n' = n + 1 /\ bad' = Fails(spec, e) /\ spec' = Apply(spec, e)
Build == Len(gen) < 2 /\ gen' = Append(gen, 1) /\ cfg' = Append(cfg, 1) /\ cache' = Append(cache, 0) /\ Do([op |-> "build", cfg |-> <<1>>, gen |-> 1, again |-> 1])
Copy == Len(gen) < 2 /\ gen' = Append(gen, G(1)) /\ cfg' = Append(cfg, cfg[1]) /\ cache' = Append(cache, cache[1]) /\ Do([op |-> "copy", m |-> 1, gen |-> G(1)])
\* setting copies the generators of the new component
Set == \E m \in Sims, v \in {1, 2} : gen' = [gen EXCEPT ![m] = 1] /\ cfg' = [cfg EXCEPT ![m] = v] /\ UNCHANGED cache
          /\ Do([op |-> "set", m |-> m, f |-> 1, version |-> v, gen |-> 1, gens |-> gen'])
Seed == \E m \in Sims : gen' = [gen EXCEPT ![m] = 1] /\ UNCHANGED <<cfg, cache>> /\ Do([op |-> "seed", m |-> m, gen |-> 1, gens |-> gen'])
Measure == \E m \in Sims, r \in Reqs :
  LET ok == r \notin Bad
      next == IF ok \/ Early THEN G(m) + 1 ELSE G(m)
      g == IF Shared THEN [i \in Sims |-> next] ELSE [gen EXCEPT ![m] = next]
  IN /\ gen' = g /\ UNCHANGED cfg
     /\ cache' = IF ok THEN [cache EXCEPT ![m] = r] ELSE cache
     /\ Do([op |-> "measure", m |-> m, req |-> r, ok |-> ok, out |-> IF ok THEN Out(m, r) ELSE 0, next |-> next, gens |-> g, noisy |-> TRUE, white |-> G(m), global |-> TRUE])
Next == n < Steps /\ (Build \/ Copy \/ Set \/ Seed \/ Measure)
Refines == bad = {}
=============================================================================
