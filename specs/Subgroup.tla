------------------------------- MODULE Subgroup -------------------------------
(* A one-parameter subgroup n -> exp(n h xi) as the group of integers n (in sixteenths): composition adds, inversion
   negates, interpolation by p/4 multiplies, log gives n back while the rotation angle stays below a half turn. *)
EXTENDS Integers, Sequences
Compose(m, n) == m + n
Inverse(n) == -n
\* interpolation by p quarters; only used where it is a whole number of sixteenths
Interp(n, p) == (n * p) \div 4
InterpOk(n, p) == (n * p) % 4 = 0
=============================================================================
