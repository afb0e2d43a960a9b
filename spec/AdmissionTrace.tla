--------------------------- MODULE AdmissionTrace ---------------------------
(* Validates recorded histories of configuration changes and requests.      *)
EXTENDS Admission, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)

VARIABLES t, l, cfg, bad
vars == <<t, l, cfg, bad>>

Event == Cases[t][l]
Clause(ok, name) == IF ok THEN {} ELSE {name}

Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N)
        /\ l = 2 /\ cfg = Cases[t][1].cfg /\ bad = {}

Done == l > Len(Cases[t])
Fields == {"g1", "g2", "s1", "s2", "csd", "sensor", "od", "pd", "rd"}
ReqFails(e) ==
    LET ok == Accepted(cfg, e.req) IN
    IF ok
    THEN Clause(e.outcome = "ok", "an admissible request was not carried out")
         \cup (IF e.outcome = "ok" THEN
                 Clause(e.shape = Shape(e.req), "result of an admissible request has the wrong shape")
                 \cup Clause(e.warned = Warns(cfg, e.req), "warning of an admissible request")
                 \cup Clause(e.touched = 1, "an admissible request did not run the components") ELSE {})
    ELSE Clause(e.outcome = "ValueError", "an inadmissible request was not rejected with a ValueError")
         \cup Clause(e.touched = 0, "a rejected request had side effects on the components")
SetFails(e) ==
    IF Settable(e.field, e.v)
    THEN Clause(e.outcome = "ok", "an admissible configuration value was refused")
    ELSE Clause(e.outcome = "ValueError", "a configuration value of the wrong kind was not refused with a ValueError")
After(e) == IF e.op = "set" THEN Apply(cfg, e.field, e.v) ELSE cfg
Fails(e) ==
    (IF e.op = "set" THEN SetFails(e) ELSE IF e.op = "new" THEN SetFails(e) ELSE ReqFails(e))
    \cup Clause(\A f \in Fields : e.seen[f] = After(e)[f], "the configuration afterwards is not the expected one")

Step == /\ ~Done
        /\ bad' = bad \cup Fails(Event)
        /\ cfg' = After(Event)
        /\ l' = l + 1
        /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 2 /\ cfg' = Cases[t + Stride][1].cfg /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
