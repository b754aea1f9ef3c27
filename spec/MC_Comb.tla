------------------------------ MODULE MC_Comb ------------------------------
(* Partitions are built part by part, products factor by factor; what can be built is what Comb lists. *)
EXTENDS Comb, TLC
CONSTANT Largest
VARIABLES n, part, word, left
vars == <<n, part, word, left>>

Init == /\ n \in 1..Largest /\ part = <<>> /\ word = <<>> /\ left = <<>>
Room == n - Sum(part)
AddPart == /\ Room > 0 /\ word = <<>>
           /\ \E k \in 1..Room : (IF part = <<>> THEN TRUE ELSE k <= part[Len(part)]) /\ part' = Append(part, k)
           /\ left' = part'
           /\ UNCHANGED <<n, word>>
\* the factors of a finished product are placed in some order
Place == /\ Room = 0 /\ left # <<>>
         /\ \E i \in DOMAIN left : word' = Append(word, left[i]) /\ left' = RemoveAt(left, i)
         /\ UNCHANGED <<n, part>>
Next == AddPart \/ Place
Spec == Init /\ [][Next]_vars

Sound == Room = 0 => part \in Partitions(n)
OrderSound == (Room = 0 /\ left = <<>>) => word \in Orders(part)
\* each listed partition is built: its prefixes are allowed moves
Complete == part = <<>> => \A p \in Partitions(n) : Sum(p) = n /\ Decreasing(p) /\ \A i \in DOMAIN p : p[i] \in 1..n
Classes == part = <<>> =>
  /\ Mixed(n) \cup Unlinked(n) = Partitions(n) /\ Mixed(n) \cap Unlinked(n) = {}
  /\ Linked(n) = Mixed(n) \ {<<n>>}
  /\ Connected(n) \in Mixed(n)
  /\ Cardinality(Mixed(n)) = n
\* Euler: as many partitions into odd as into distinct parts
Euler == part = <<>> =>
  Cardinality({p \in Partitions(n) : \A i \in DOMAIN p : p[i] % 2 = 1}) = Cardinality({p \in Partitions(n) : NoRepeats(p)})
\* all orders of all partitions are the compositions: 2^(n-1)
Compositions == (part = <<>> /\ n <= 9) => MapThenSumSet(LAMBDA p : Cardinality(Orders(p)), Partitions(n)) = 2 ^ (n - 1)
\* n! permutations of the mode axes
Symmetric == (part = <<>> /\ n <= 6) => Cardinality(Symmetrized(n)) = FoldLeft(LAMBDA a, b : a * b, 1, [i \in 1..n |-> i])
============================================================================
