------------------------------ MODULE Pipeline ------------------------------
(* One measurement as a state machine. Every call between the simulation    *)
(* and one of its components is an event; data are opaque values (digests   *)
(* in recorded traces, histories in the model PipelineMC).                  *)
(*                                                                          *)
(* The state s of a running measurement:                                    *)
(*  ctx    op, r1, r2, f1, f2, res, od, pd, rd (ids of the distortions),    *)
(*         csd (id or -1), sensor (id), scan (BOOLEAN), want (scan: digest  *)
(*         of the occupations the sensor has to see)                        *)
(*  base   <<occ, lead>> of the window that is measured, <<>> = not yet     *)
(*  k      number of occupation distortions that are done; run = one is     *)
(*         running (at the bottom of the stack)                             *)
(*  stack  additional windows that are being generated: [lvl: distortions   *)
(*         to apply, v1, v2, res, j: applied, cur, run]                     *)
(*  pots0, pots, prog   potentials as returned, distorted, progress         *)
(*  sig, rprog  response and its progress;  labels  of a sensor scan        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(ok, name) == IF ok THEN {} ELSE {name}
Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1) \o <<f>>]

Start(ctx) == [ctx |-> ctx, base |-> <<>>, k |-> 0, run |-> FALSE, stack |-> <<>>, pots0 |-> <<>>, pots |-> <<>>,
               prog |-> <<>>, sig |-> <<>>, rprog |-> 0, labels |-> <<>>, over |-> FALSE]

SameFixed(arg, f) == arg = f \/ (Len(f) = 1 /\ arg = <<f[1], f[1]>>)

-----------------------------------------------------------------------------
(* ideal data are generated *)
CsdFails(s, e) ==
    IF s.ctx.op = "scan" THEN {}
    ELSE IF s.stack # <<>>
    THEN LET f == Top(s) IN
         Clause(~f.run /\ f.j = 0, "ideal data generated in the middle of the distortions of an additional window")
         \cup Clause(e.v1 = f.v1 /\ e.v2 = f.v2 /\ e.res = f.res, "additional data generated for another window than the requested one")
         \cup Clause(e.id = s.ctx.csd, "data of another ideal CSD than the configured one")
    ELSE Clause(~s.run /\ s.k = 0 /\ s.pots0 = <<>>, "ideal data generated after the first distortion")
         \cup Clause(e.v1 = s.ctx.r1 /\ e.v2 = s.ctx.r2 /\ e.res = s.ctx.res, "ideal data generated for another window than the measured one")
         \cup Clause(e.id = s.ctx.csd, "data of another ideal CSD than the configured one")
Csd(s, e) == IF s.ctx.op = "scan" THEN s
             ELSE IF s.stack # <<>> THEN SetTop(s, [Top(s) EXCEPT !.cur = <<e.occ, e.lead>>])
             ELSE [s EXCEPT !.base = <<e.occ, e.lead>>]

(* an occupation distortion starts *)
OccFails(s, e) ==
    IF s.stack # <<>>
    THEN LET f == Top(s) IN
         Clause(e.frozen, "distortion of additional data is not frozen")
         \cup Clause(~f.run /\ f.cur # <<>> /\ e.inp = f.cur[1] /\ e.linp = f.cur[2], "distortion of additional data does not get the data of the previous step")
         \cup Clause(f.j + 1 <= f.lvl /\ e.id = s.ctx.od[f.j + 1], "additional data is distorted by the wrong distortion")
         \cup Clause(e.v1 = f.v1 /\ e.v2 = f.v2, "distortion of additional data gets wrong sweep ranges")
    ELSE Clause(s.ctx.op = "csd" /\ ~e.frozen, "occupation distortion frozen or not expected at all")
         \cup Clause(~s.run /\ s.k + 1 <= Len(s.ctx.od) /\ s.pots0 = <<>> /\ (s.k + 1 <= Len(s.ctx.od) => e.id = s.ctx.od[s.k + 1]),
                     "occupation distortions not applied once each in list order before the sensor")
         \cup Clause(s.base # <<>> /\ e.inp = s.base[1] /\ e.linp = s.base[2], "occupation distortion does not get the data of the previous step")
         \cup Clause(e.v1 = s.ctx.r1 /\ e.v2 = s.ctx.r2, "occupation distortion gets wrong sweep ranges")
         \cup Clause(e.gen, "occupation distortion cannot generate additional data")
Occ(s, e) == IF s.stack # <<>> THEN SetTop(s, [Top(s) EXCEPT !.run = TRUE]) ELSE [s EXCEPT !.run = TRUE]

(* a running distortion asks for data of another window: it sees the effect of the distortions in front of it *)
AskFails(s, e) == Clause(IF s.stack # <<>> THEN Top(s).run ELSE s.run, "request out of order")
Ask(s, e) == LET lvl == IF s.stack # <<>> THEN Top(s).j ELSE s.k IN
             [s EXCEPT !.stack = Append(s.stack, [lvl |-> lvl, v1 |-> e.v1, v2 |-> e.v2, res |-> e.res, j |-> 0,
                                                  cur |-> <<>>, run |-> FALSE])]
GotFails(s, e) ==
    IF s.stack = <<>> THEN {"additional data without request"}
    ELSE LET f == Top(s) IN
         Clause(f.j = f.lvl, "additional data does not contain all distortions applied before")
         \cup Clause(<<e.occ, e.lead>> = f.cur, "additional data is not the result of its last distortion")
Got(s, e) == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)]

(* a distortion is done *)
OccEndFails(s, e) == {}
OccEnd(s, e) == IF s.stack # <<>>
                THEN SetTop(s, [Top(s) EXCEPT !.run = FALSE, !.j = Top(s).j + 1, !.cur = <<e.out, e.lout>>])
                ELSE [s EXCEPT !.run = FALSE, !.k = s.k + 1, !.base = <<e.out, e.lout>>]

(* sensor potential *)
OccDone(s) == /\ s.stack = <<>> /\ ~s.run
              /\ (s.ctx.op = "csd" => s.k = Len(s.ctx.od) /\ s.base # <<>>)
Occupations(s) == IF s.ctx.op = "csd" THEN IF s.base = <<>> THEN -2 ELSE s.base[1] ELSE s.ctx.want
PotFails(s, e) ==
    Clause(OccDone(s) /\ s.sig = <<>>, "sensor potential before the end of the occupation distortions or after the response")
    \cup Clause(e.inp = Occupations(s), "sensor potential does not get the occupations of the last step")
    \cup Clause(e.id = s.ctx.sensor, "another sensor than the configured one")
    \cup (IF s.ctx.op = "csd"
          THEN Clause(e.v1 = s.ctx.r1 /\ e.v2 = s.ctx.r2, "sensor potential gets wrong gate voltages")
               \cup Clause(IF s.ctx.scan THEN SameFixed(e.s1, s.ctx.f1) /\ SameFixed(e.s2, s.ctx.f2) ELSE e.s1 = <<>> /\ e.s2 = <<>>,
                           "sensor potential gets wrong sensor gate voltages")
          ELSE Clause(e.s1 = s.ctx.r1 /\ e.s2 = s.ctx.r2, "sensor potential gets wrong sensor gate voltages")
               \cup Clause(SameFixed(e.v1, s.ctx.f1) /\ SameFixed(e.v2, s.ctx.f2), "sensor potential gets wrong gate voltages"))
Pot(s, e) == IF s.pots0 = <<>> \/ \A n \in DOMAIN s.prog : s.prog[n] = 0
             THEN [s EXCEPT !.pots0 = e.out, !.pots = e.out, !.prog = [n \in DOMAIN e.out |-> 0]]
             ELSE s

(* labels of a sensor scan are derived from the undistorted potential *)
LabelsFails(s, e) ==
    Clause(s.ctx.op = "scan", "labels of a sensor scan calculated for a CSD")
    \cup Clause(s.pots0 # <<>> /\ e.inp = s.pots0, "labels not calculated from the undistorted potential")
    \cup Clause(e.s1 = s.ctx.r1 /\ e.s2 = s.ctx.r2 /\ SameFixed(e.v1, s.ctx.f1) /\ SameFixed(e.v2, s.ctx.f2), "labels calculated for wrong voltages")
Labels(s, e) == [s EXCEPT !.labels = e.out]

(* a distortion of a sensor potential: every potential passes all of them in list order *)
PdCand(s, e) == {n \in DOMAIN s.pots : /\ s.pots[n] = e.inp /\ s.prog[n] + 1 <= Len(s.ctx.pd)
                                       /\ e.id = s.ctx.pd[s.prog[n] + 1]}
PdFails(s, e) ==
    Clause(s.pots # <<>> /\ s.sig = <<>>, "potential distortion before the potential or after the response")
    \cup Clause(PdCand(s, e) # {}, "potential distortions not applied once each in list order to the data of the previous step")
    \cup Clause(e.v1 = s.ctx.r1 /\ e.v2 = s.ctx.r2, "potential distortion gets wrong sweep ranges")
Pd(s, e) == LET n == CHOOSE n \in PdCand(s, e) : TRUE IN
            [s EXCEPT !.pots = [s.pots EXCEPT ![n] = e.out], !.prog = [s.prog EXCEPT ![n] = s.prog[n] + 1]]

RespFails(s, e) ==
    Clause(s.pots # <<>> /\ \A n \in DOMAIN s.prog : s.prog[n] = Len(s.ctx.pd), "sensor response before the end of the potential distortions")
    \cup Clause(e.inp = s.pots, "sensor response does not get the distorted potential")
    \cup Clause(e.id = s.ctx.sensor, "another sensor than the configured one")
    \cup Clause(s.rprog = 0, "sensor response after a response distortion")
Resp(s, e) == [s EXCEPT !.sig = <<e.out>>]

RdFails(s, e) ==
    Clause(s.sig # <<>> /\ e.inp = s.sig[1], "response distortion does not get the data of the previous step")
    \cup Clause(s.rprog + 1 <= Len(s.ctx.rd) /\ (s.rprog + 1 <= Len(s.ctx.rd) => e.id = s.ctx.rd[s.rprog + 1]),
                "response distortions not applied once each in list order")
    \cup Clause(e.v1 = s.ctx.r1 /\ e.v2 = s.ctx.r2, "response distortion gets wrong sweep ranges")
Rd(s, e) == [s EXCEPT !.sig = <<e.out>>, !.rprog = s.rprog + 1]

ReturnFails(s, e) ==
    Clause(OccDone(s) /\ s.pots # <<>> /\ s.sig # <<>> /\ s.rprog = Len(s.ctx.rd), "measurement returned before all stages were done")
    \cup Clause(s.sig # <<>> /\ e.out = s.sig[1], "returned signal is not the result of the last stage")
    \cup (IF s.ctx.op = "csd"
          THEN Clause(<<e.occ, e.lead>> = s.base, "returned occupations or lead transitions are not those of the last occupation distortion")
          ELSE Clause(<<e.occ, e.lead>> = s.labels, "returned masks are not the labels of the undistorted potential"))
Return(s, e) == [s EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
Fails(s, e) == CASE e.ev = "csd" -> CsdFails(s, e)
                 [] e.ev = "occ" -> OccFails(s, e)
                 [] e.ev = "ask" -> AskFails(s, e)
                 [] e.ev = "got" -> GotFails(s, e)
                 [] e.ev = "occ_end" -> OccEndFails(s, e)
                 [] e.ev = "pot" -> PotFails(s, e)
                 [] e.ev = "labels" -> LabelsFails(s, e)
                 [] e.ev = "pd" -> PdFails(s, e)
                 [] e.ev = "resp" -> RespFails(s, e)
                 [] e.ev = "rd" -> RdFails(s, e)
                 [] e.ev = "return" -> ReturnFails(s, e)
                 [] OTHER -> {"unknown event"}
After(s, e) == CASE e.ev = "csd" -> Csd(s, e)
                 [] e.ev = "occ" -> Occ(s, e)
                 [] e.ev = "ask" -> Ask(s, e)
                 [] e.ev = "got" -> Got(s, e)
                 [] e.ev = "occ_end" -> OccEnd(s, e)
                 [] e.ev = "pot" -> Pot(s, e)
                 [] e.ev = "labels" -> Labels(s, e)
                 [] e.ev = "pd" -> Pd(s, e)
                 [] e.ev = "resp" -> Resp(s, e)
                 [] e.ev = "rd" -> Rd(s, e)
                 [] OTHER -> Return(s, e)
=============================================================================
