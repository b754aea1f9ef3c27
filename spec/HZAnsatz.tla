----------------------------- MODULE HZAnsatz -----------------------------
(* The equations of the z_t and the eT_z_t ansatz.

   Projecting  exp(T) H Z  (z_t: H Z) on the operator Omega = <<m, n>> (m creation, n annihilation
   labels) leaves terms, each a product

       a t's joined with upper labels of h,   b t's joined with upper labels of z,
       h^m_n,    c contractions between lower labels of h and upper labels of z,    z^p

   and is named <<a, b, m, n, c, p>>.  Every t is a single with one lower label (the conjugate of a
   cluster amplitude), z has only upper labels.  What is not contracted is projected:
   m - a upper labels of h and p - b - c of z on Omega's annihilation labels, n - c lower labels of h on
   Omega's creation labels. *)
EXTENDS Rat

Ta(x) == x[1]
Tb(x) == x[2]
Hm(x) == x[3]
Hn(x) == x[4]
Cc(x) == x[5]
Zp(x) == x[6]
HUp(x) == x[3] - x[1]
HLow(x) == x[4] - x[5]
ZUp(x) == x[6] - x[2] - x[5]

\* Hamiltonian operators <<upper, lower>> of rank at most H; mixed ones and those with upper labels only to rank two
ZHOps(H) == {h \in (0..H) \X (0..H) : h[1] + h[2] <= H /\ (h[1] + h[2] < 3 \/ h[1] = 0)}

\* projections: all with creation and annihilation labels (z_t), annihilation labels only (eT_z_t)
ZOmegas(kind, CC, P) ==
  LET top == IMin(CC, P)
  IN IF kind = "zhz" THEN {o \in (0..top) \X (0..top) : o[1] + o[2] <= top} ELSE {<<0, n>> : n \in 0..top}

\* all contractions which end on the projection
ZTerms(om, H, CC, eT) ==
  {x \in UNION {{<<a, b, h[1], h[2], c, p>> : a \in 0..IMin(eT, h[1]), b \in 0..IMin(eT, CC), c \in 0..h[2], p \in 0..CC} : h \in ZHOps(H)} :
     /\ Ta(x) + Tb(x) <= eT
     /\ Cc(x) + Tb(x) <= Zp(x)
     /\ HLow(x) = om[1]
     /\ HUp(x) + ZUp(x) = om[2]}

\* on the side of the time derivative h is d/dtau of t, which has no lower labels; or 1, and z is differentiated
ZLhsTerms(om, H, CC, eT) == {x \in ZTerms(om, H, CC, eT) : Hn(x) = 0}

\* 1/k! of exp(T), 1/(m! n!) of h, 1/p! of z, times the number of ways to contract
ZCoef(x) == InvFactProd(<<Ta(x), Tb(x), Cc(x), HUp(x), HLow(x), ZUp(x)>>)

\* every contraction brings one fbar
ZFbar(x) == Ta(x) + Tb(x) + Cc(x)
===========================================================================
