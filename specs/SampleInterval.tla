--------------------------- MODULE SampleInterval ---------------------------
(* C06/C07.  Even sampling of an interval, over any exact integer arithmetic.
   T >= 0 is the length of the interval, D > 0 the maximum step, n the number of samples, all in one unit. *)
CONSTANTS PAdd(_, _), PMul(_, _), PLeq(_, _), PLt(_, _), Num(_)   \* Num: TLC integer -> number
\* n is the fewest number of samples such that n-1 steps of at most D cover T; MinusOne(n) etc. avoid subtraction
IsCount(T, D, n) ==
  IF T = Num(0) THEN n = Num(1)
  ELSE /\ PLt(Num(1), n)
       /\ \* (n-1) * D >= T   <=>   n*D >= T + D
          PLeq(PAdd(T, D), PMul(n, D))
       /\ \* (n-2) * D < T    <=>   n*D < T + 2D
          PLt(PMul(n, D), PAdd(T, PAdd(D, D)))
\* q is i*T/m rounded to nearest, ties up (away from the start): 2*q*m <= 2*i*T + m < 2*(q+1)*m
IsRounded(i, T, m, q) == LET x == PAdd(PMul(Num(2), PMul(i, T)), m)
                         IN /\ PLeq(PMul(Num(2), PMul(q, m)), x)
                            /\ PLt(x, PMul(Num(2), PMul(PAdd(q, Num(1)), m)))
=============================================================================
