------------------------------ MODULE SubgroupMC ------------------------------
EXTENDS Subgroup
CONSTANT K
VARIABLES m, n, p
Init == m \in -K..K /\ n \in -K..K /\ p \in -8..12
Next == UNCHANGED <<m, n, p>>
Spec == Init /\ [][Next]_<<m, n, p>>
\* fraction 0 gives the identity, 1 the element, negative fractions the inverse, fractions add up along the subgroup
Laws == /\ Compose(m, Inverse(m)) = 0
        /\ Interp(m, 0) = 0 /\ Interp(m, 4) = m /\ Interp(m, -4) = Inverse(m)
        /\ InterpOk(m, p) => Compose(Interp(m, p), Interp(m, 4 - p)) = m
        /\ InterpOk(m, p) /\ InterpOk(n, p) => Interp(Compose(m, n), p) = Compose(Interp(m, p), Interp(n, p))
=============================================================================
