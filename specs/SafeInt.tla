------------------------------- MODULE SafeInt -------------------------------
(* C08.  Checked arithmetic over a machine integer range Lo..Hi, over any exact integer arithmetic given by the
   operators.  Verdict: the exact result if representable, else which bound was exceeded. *)
CONSTANTS PAdd(_, _), PSub(_, _), PAbs(_), PLeq(_, _), Lo, Hi
Exact(op, a, b) == CASE op = "sum" -> PAdd(a, b) [] op = "difference" -> PSub(a, b) [] op = "abs" -> PAbs(a)
Outcome(op, a, b) == LET x == Exact(op, a, b)
                     IN IF ~PLeq(x, Hi) THEN "overflow" ELSE IF ~PLeq(Lo, x) THEN "underflow" ELSE "ok"
=============================================================================
