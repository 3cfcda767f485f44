------------------------------ MODULE Patricia ------------------------------
(***************************************************************************)
(* Well-formed trees and their roots, for keys of any width and any number *)
(* of them.  What the check of C11 sees in every stored tree is `IsTree'   *)
(* and `Named'; PatriciaProofs shows that nothing more is needed for       *)
(*                                                                         *)
(*   C05  there is one such tree over a set of keys, and one root          *)
(*   C06  equal roots mean equal contents                                  *)
(*   C07  every pair has a proof                                           *)
(*   C08  an accepted proof, whoever made it, is of a pair that is there   *)
(*                                                                         *)
(* A tree over the keys S is the family of the sets of keys below each of  *)
(* its nodes: a leaf is a set of one key, a branch is the union of its two *)
(* sides.  Hash functions are any functions without collisions.            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Key,                       \* the keys
          bit,                       \* key |-> its bits, by position
          Val, Hash,
          HLeaf(_, _), HBranch(_, _)  \* the hash of a leaf (and its data), of a branch

ASSUME BitsOK == bit \in [Key -> [Nat -> {0, 1}]]
ASSUME KeysDiffer == \A j, k \in Key : j # k => \E i \in Nat : bit[j][i] # bit[k][i]

NoCollisions ==
  /\ \A k \in Key, v \in Val : HLeaf(k, v) \in Hash
  /\ \A x, y \in Hash : HBranch(x, y) \in Hash
  /\ \A j, k \in Key, v, w \in Val : HLeaf(j, v) = HLeaf(k, w) => j = k /\ v = w
  /\ \A x, y, z, u \in Hash : HBranch(x, y) = HBranch(z, u) => x = z /\ y = u
  /\ \A k \in Key, v \in Val, x, y \in Hash : HLeaf(k, v) # HBranch(x, y)

\* the first bit at which the keys of X differ is at p
Split(X, p) == /\ p \in Nat
               /\ \A j, k \in X : \A i \in Nat : i < p => bit[j][i] = bit[k][i]
               /\ \E j, k \in X : bit[j][p] # bit[k][p]
Side(X, p, b) == {k \in X : bit[k][p] = b}
IsLeaf(X) == \E k \in X : X = {k}

IsTree(F, S) ==
  /\ S \in F
  /\ F \subseteq SUBSET S
  /\ \A X \in F : X # {}
  /\ \A X \in F : ~IsLeaf(X) => \E p \in Nat : Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
  /\ \A X \in F : X # S => \E Y \in F, p \in Nat, b \in {0, 1} : Split(Y, p) /\ X = Side(Y, p, b)

\* each node is stored under the hash of its content
Named(h, F, m) ==
  /\ h \in [F -> Hash]
  /\ \A X \in F : \A k \in Key : X = {k} => h[X] = HLeaf(k, m[k])
  /\ \A X \in F : \A p \in Nat : Split(X, p) => h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])

\* the contents m, a map of keys to values, are stored with the root r
Stands(r, S, m) ==
  /\ S \subseteq Key /\ S # {} /\ IsFiniteSet(S)
  /\ m \in [S -> Val]
  /\ \E F \in SUBSET SUBSET S : \E h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S]

\* a proof: on the way up, the hash on the other side and on which side we are
Step(x, e) == IF e.side = 0 THEN HBranch(x, e.other) ELSE HBranch(e.other, x)
Proof == [side : {0, 1}, other : Hash]
Accepted(r, k, v, e, n) ==
  /\ e \in [1 .. n -> Proof]
  /\ \E c \in [0 .. n -> Hash] : /\ c[0] = HLeaf(k, v)
                                 /\ \A i \in 1 .. n : c[i] = Step(c[i - 1], e[i])
                                 /\ c[n] = r
=============================================================================
