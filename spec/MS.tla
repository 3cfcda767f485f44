---------------------------------- MODULE MS ----------------------------------
(* Instances of MerkleStore for TLC: all keys of W bits, B bits to a byte. *)
EXTENDS MerkleStore
CONSTANTS Width
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
AllKeys == 0 .. Pow2(Width) - 1
BitsOfAll == [k \in AllKeys |-> [i \in 1 .. Width |-> (k \div Pow2(Width - i)) % 2]]
=============================================================================
