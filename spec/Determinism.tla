----------------------------- MODULE Determinism -----------------------------
(* A measurement is a function of the configuration, the request and the state of the random generators of its          *)
(* simulation, and of nothing else. Values are opaque integers.                                                         *)
(*   cfg[m]  versions of the fields of simulation m           gen[m]  state of the generators of m (0: not known)        *)
(*   seen    measurements so far: [cfg, req, gen, ok, out, next, white]                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clause(ok, name) == IF ok THEN {} ELSE {name}
Apply(s, e) ==
  CASE e.op = "build" -> [s EXCEPT !.cfg = Append(@, e.cfg), !.gen = Append(@, e.gen)]
    [] e.op = "set" -> [s EXCEPT !.cfg[e.m][e.f] = e.version, !.gen[e.m] = e.gen]
    [] e.op = "renew" -> [s EXCEPT !.cfg[e.m] = e.cfg, !.gen[e.m] = e.gen]
    [] e.op = "seed" -> [s EXCEPT !.gen[e.m] = e.gen]
    [] e.op = "copy" -> [s EXCEPT !.cfg = Append(@, s.cfg[e.m]), !.gen = Append(@, s.gen[e.m])]
    \* a simulation built from the metadata of a measurement or from the fields of another simulation
    [] e.op = "rebuild" -> [s EXCEPT !.cfg = Append(@, e.cfg), !.gen = Append(@, e.gen)]
    [] e.op = "measure" -> [s EXCEPT !.gen[e.m] = e.next,
                                     !.seen = Append(@, [cfg |-> s.cfg[e.m], req |-> e.req, gen |-> s.gen[e.m], ok |-> e.ok, out |-> e.out, next |-> e.next, white |-> e.white])]
    [] OTHER -> s
Fails(s, e) ==
  IF e.op = "measure" THEN
    LET same == {i \in DOMAIN s.seen : s.seen[i].cfg = s.cfg[e.m] /\ s.seen[i].req = e.req}
        alike == {i \in same : s.seen[i].gen = s.gen[e.m]}
    IN Clause(\A i \in same : s.seen[i].ok = e.ok, "a request is refused or not depending on the history")
       \cup Clause(\A i \in alike : s.seen[i].out = e.out, "the same measurement with the same generators gives another result")
       \cup Clause(\A i \in alike : s.seen[i].next = e.next, "the same measurement leaves the generators in another state")
       \cup Clause(e.ok \/ e.next = s.gen[e.m], "a refused request used the generators")
       \* white noise is always active (white: the state of its generators)
       \cup Clause(e.ok /\ e.noisy => e.next # s.gen[e.m] /\ \A i \in same : s.seen[i].white # e.white => s.seen[i].out # e.out, "noise is repeated")
       \cup Clause(\A m \in DOMAIN s.gen : e.gens[m] = (IF m = e.m THEN e.next ELSE s.gen[m]), "a measurement used the generators of another simulation")
       \cup Clause(e.global, "the global generator of numpy was used")
  ELSE IF e.op = "build" THEN Clause(e.again = e.gen, "a generator handed to a component is not the one it uses")
  ELSE IF e.op = "copy" THEN Clause(e.gen = s.gen[e.m], "a copy has other generators")
  ELSE IF e.op = "set" \/ e.op = "seed" THEN
    Clause(\A m \in DOMAIN s.gen : m # e.m => e.gens[m] = s.gen[m], "configuring a simulation used the generators of another one")
  ELSE IF e.op = "fresh" THEN
    \* results of components built without generator
    Clause(Cardinality({e.outs[i] : i \in DOMAIN e.outs}) = Len(e.outs), "components without own generator repeat the noise of others")
    \cup Clause(e.global, "the global generator of numpy was used")
  ELSE {}
=============================================================================
