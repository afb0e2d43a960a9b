----------------------------- MODULE Isolation -----------------------------
(* Who owns which data. Values are opaque integers (digests).               *)
(*   orig   objects the user built and handed over (or may hand over)       *)
(*   live   configuration of every simulation: live[m][f], f a field        *)
(*   metas  metadata of the measurements so far (fields at that time)       *)
(*   args   arrays passed as arguments of measurements                      *)
(*   outs   results of the measurements so far                              *)
(* Handing over copies; getters give access to the live object; metadata    *)
(* and results belong to the user.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clause(ok, name) == IF ok THEN {} ELSE {name}

(* what a step may change: everything else has to stay as it is *)
Apply(s, e) ==
    CASE e.op = "set" -> [s EXCEPT !.live[e.m][e.f] = s.orig[e.i]]
      [] e.op = "setnone" -> [s EXCEPT !.live[e.m][e.f] = e.val]
      [] e.op = "mut_orig" -> [s EXCEPT !.orig[e.i] = e.val]
      [] e.op = "mut_live" -> [s EXCEPT !.live[e.m][e.f] = e.val]
      [] e.op = "mut_meta" -> [s EXCEPT !.metas[e.i][e.f] = e.val]
      [] e.op = "mut_arg" -> [s EXCEPT !.args[e.i] = e.val]
      [] e.op = "mut_out" -> [s EXCEPT !.outs[e.i] = e.val]
      (* a measurement may advance the state of its distortions (noise) and of its sensor, nothing else; the metadata *)
      (* are the configuration and the arguments of the measurement *)
      [] e.op = "measure" -> LET l == [f \in DOMAIN s.live[e.m] |-> IF f \in {"od", "pd", "rd", "sensor"} THEN e.after[f] ELSE s.live[e.m][f]] IN
              [s EXCEPT !.live[e.m] = l, !.metas = Append(@, [f \in DOMAIN l \cup DOMAIN e.given |-> IF f \in DOMAIN l THEN l[f] ELSE e.given[f]]),
                        !.outs = Append(@, e.out)]
      (* a second simulation is built from the metadata of a measurement *)
      [] e.op = "rebuild" -> [s EXCEPT !.live[e.m] = [f \in DOMAIN s.live[e.m] |-> s.metas[e.i][f]]]

(* the observation of all handles after the step *)
Fails(s, e) ==
    LET n == Apply(s, e) IN
    Clause(e.obs.orig = n.orig, "an object of the user changes without the user")
    \cup Clause(e.obs.live = n.live, "the configuration of a simulation differs from what was set")
    \cup Clause(e.obs.metas = n.metas, "metadata of a measurement are not those of the measurement, or change later")
    \cup Clause(e.obs.args = n.args, "arguments of a measurement are changed")
    \cup Clause(e.obs.outs = n.outs, "results of an earlier measurement change")
    \cup Clause(e.op # "measure" \/ e.eff, "measurement uses another configuration than the current one")
=============================================================================
