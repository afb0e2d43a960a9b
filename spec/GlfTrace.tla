------------------------------- MODULE GlfTrace -------------------------------
(* Validates recorded histories of barrier functions and final rises and calls of the logistic functions (C18).          *)
(* State s: kind glf (p, pin, full: percentages in 1/1000), multi (ps, pin, full: potentials 1e-6) or rise (p with o as    *)
(* mu0, full).                                                                                                            *)
(* Events: make (state), set (field, value, ok, raised), eval (x, at: for rises the potential of the fully conductive      *)
(*         point, fc: the fully_conductive attribute relative to mu0 in 1e-8; out, err), thr (pin, full; 1e-8, for glf and  *)
(*         rise relative to the offset), call (ps, x, out, err), inv (p, v, out: 1e-8 relative to the offset, err)          *)
EXTENDS Glf, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
None == [kind |-> "none"]
After(c, e) ==
  IF e.ev = "make" THEN e.state
  ELSE IF e.ev = "set" /\ e.ok THEN
    (IF e.field \in {"pin", "full", "ps"} THEN [c EXCEPT ![e.field] = e.value] ELSE [c EXCEPT !.p = [@ EXCEPT ![e.field] = e.value]])
  ELSE c
SetFails(e) == IF e.ok THEN (IF e.raised = "" THEN {} ELSE {"an admissible parameter was refused"})
               ELSE IF e.raised = "ValueError" THEN {} ELSE {"an inadmissible parameter was not refused with a ValueError"}
\* the percentage of the way from the smaller to the larger asymptote
Fraction(p, pct) == IF p.ar >= p.al THEN pct * 100 ELSE Unit - pct * 100
AtFraction(p, d, f) ==
  /\ Near(Frac(p, Exponent(p.g, d)), f, 2 * FracTol(p))
  /\ f <= 40000 => Near(LnFrac(p, Exponent(p.g, d)), Ln(f), 20 + 1500 \div p.nu + 200000 \div f)
EvalFails(c, e) ==
  IF e.err # "" THEN {"the function raised an exception"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"shape of the values"}
  ELSE IF \A k \in DOMAIN e.x :
         CASE c.kind = "glf" -> Near(e.out[k], Glf(c.p, e.x[k]), Tol(c.p))
           [] c.kind = "multi" -> Near(e.out[k], Sum(c.ps, e.x[k]), SumTol(c.ps))
           [] c.kind = "rise" -> Near(e.out[k], Value(c.p, Frac(c.p, Exponent(c.p.g, 100 * (e.x[k] - e.at) + e.fc))), 2 * Tol(c.p))
       THEN {} ELSE {"value"}
ThrFails(c, e) ==
  IF e.err # "" THEN {"a threshold raised an exception"}
  ELSE CASE c.kind = "multi" -> (IF Near(e.pin, 100 * c.pin, 2) /\ Near(e.full, 100 * c.full, 2) THEN {} ELSE {"threshold"})
         [] c.kind = "glf" -> (IF AtFraction(c.p, e.pin, Fraction(c.p, c.pin)) THEN {} ELSE {"pinch-off"})
                              \union (IF AtFraction(c.p, e.full, Fraction(c.p, c.full)) THEN {} ELSE {"fully conductive point"})
         \* a rise is followed from its left to its right asymptote
         [] c.kind = "rise" -> (IF AtFraction(c.p, e.full, c.full * 100) THEN {} ELSE {"fully conductive point of the rise"})
CallFails(e) ==
  IF e.err # "" THEN {"the function raised an exception"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"shape of the values"}
  ELSE IF \A k \in DOMAIN e.x : Near(e.out[k], Sum(e.ps, e.x[k]), SumTol(e.ps)) THEN {} ELSE {"value"}
InvFails(e) ==
  IF e.err # "" THEN {"the inverse raised an exception"}
  ELSE IF Len(e.out) # Len(e.v) THEN {"shape of the inverse"}
  ELSE IF \A k \in DOMAIN e.v : Near(e.v[k], Value(e.p, Frac(e.p, Exponent(e.p.g, e.out[k]))), 2 * Tol(e.p)) THEN {} ELSE {"inverse"}
Fails(c, e) == (CASE e.ev = "make" -> (IF e.raised = "" THEN {} ELSE {"constructor raised an exception"})
                  [] e.ev = "set" -> SetFails(e) [] e.ev = "eval" -> EvalFails(c, e) [] e.ev = "thr" -> ThrFails(c, e)
                  [] e.ev = "call" -> CallFails(e) [] e.ev = "inv" -> InvFails(e))
               \union (IF e.same THEN {} ELSE {"arguments changed"})
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = None /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(s, Cases[t][l]) /\ l' = l + 1 /\ s' = After(s, Cases[t][l]) /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ s' = None
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
