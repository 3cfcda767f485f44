---------------------------- MODULE PatriciaParts ----------------------------
(***************************************************************************)
(* Which trees are parts of others, for trees of any size: what an insert  *)
(* can share with its base (C01, C02, C05), what can still be read at a    *)
(* root that was removed (C04, C10), how a key is looked up (C01, C07).    *)
(* Checked by tlapm.                                                       *)
(***************************************************************************)
EXTENDS PatriciaProofs

\* the keys of X agree further than any of them agrees with another key of S
Apart(k, X, p) == \A j \in X : \E i \in Nat : i < p /\ bit[k][i] # bit[j][i]
Part(X, S) == /\ X \subseteq S /\ X # {}
              /\ \/ IsLeaf(X)
                 \/ \E p \in Nat : Split(X, p) /\ \A k \in S \ X : Apart(k, X, p)

LEMMA Deeper ==
  ASSUME NEW Y \in SUBSET Key, NEW q \in Nat, Split(Y, q), NEW b \in {0, 1}, NEW X, X \subseteq Side(Y, q, b),
         NEW p \in Nat, Split(X, p)
  PROVE  q < p
<1>1. PICK j \in X, k \in X : bit[j][p] # bit[k][p] BY DEF Split
<1>2. j \in Y /\ k \in Y /\ bit[j][q] = b /\ bit[k][q] = b BY DEF Side
<1>3. p # q BY <1>1, <1>2
<1>4. ~(p < q) BY <1>1, <1>2 DEF Split
<1> QED BY <1>3, <1>4

\* every node is a part
THEOREM NodesAreParts ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S)
  PROVE  \A X \in F : Part(X, S)
<1> DEFINE P(n) == \A X \in F : Cardinality(S) - Cardinality(X) = n => Part(X, S)
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i),
                      NEW X \in F, Cardinality(S) - Cardinality(X) = n
               PROVE  Part(X, S)
    OBVIOUS
  <2>0. X \in SUBSET Key /\ X \subseteq S /\ X # {} BY TreeSets
  <2>1. CASE IsLeaf(X) BY <2>0, <2>1 DEF Part
  <2>2. CASE ~IsLeaf(X)
    <3>1. PICK p \in Nat : Split(X, p) BY <2>2 DEF IsTree
    <3>2. CASE X = S BY <2>0, <3>1, <3>2 DEF Part
    <3>3. CASE X # S
      <4>1. PICK Y \in F, q \in Nat, b \in {0, 1} : Split(Y, q) /\ X = Side(Y, q, b) BY <3>3 DEF IsTree
      <4>2. Y \in SUBSET Key /\ IsFiniteSet(Y) /\ Cardinality(Y) \in Nat /\ Cardinality(Y) <= Cardinality(S) /\ Cardinality(S) \in Nat
        BY TreeSets
      <4>3. Cardinality(X) < Cardinality(Y) /\ Cardinality(X) \in Nat BY <4>1, <4>2, SplitSides
      <4>4. Cardinality(S) - Cardinality(Y) \in 0 .. n - 1 BY <4>2, <4>3
      <4>5. Part(Y, S) BY <4>4
      <4>6. ~IsLeaf(Y) BY <4>1, <4>2, LeafUnsplit
      <4>7. PICK r \in Nat : Split(Y, r) /\ \A k \in S \ Y : Apart(k, Y, r) BY <4>5, <4>6 DEF Part
      <4>8. r = q BY <4>1, <4>2, <4>7, SplitUnique
      <4>9. q < p BY <3>1, <4>1, <4>2, Deeper
      <4>10. ASSUME NEW k \in S \ X, NEW j \in X PROVE \E i \in Nat : i < p /\ bit[k][i] # bit[j][i]
        <5>1. j \in Y /\ bit[j][q] = b BY <4>1 DEF Side
        <5>2. CASE k \in Y
          <6>1. bit[k][q] # b BY <4>1, <5>2 DEF Side
          <6> QED BY <4>9, <5>1, <6>1
        <5>3. CASE k \notin Y
          <6>1. PICK i \in Nat : i < q /\ bit[k][i] # bit[j][i] BY <4>7, <4>8, <5>1, <5>3 DEF Apart
          <6>2. i < p BY <4>9, <6>1
          <6> QED BY <6>1, <6>2
        <5> QED BY <5>2, <5>3
      <4> QED BY <2>0, <3>1, <4>10 DEF Part, Apart
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. ASSUME NEW X \in F PROVE Part(X, S)
  <2>1. Cardinality(S) - Cardinality(X) \in Nat BY TreeSets
  <2> QED BY <1>2, <2>1
<1> QED BY <1>3

\* and every part is a node
THEOREM PartsAreNodes ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW X, Part(X, S)
  PROVE  X \in F
<1>0. X \in SUBSET Key /\ X \subseteq S /\ X # {} BY DEF Part
<1> DEFINE P(n) == \A Y \in F : Cardinality(Y) = n /\ X \subseteq Y => X \in F
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i), NEW Y \in F, Cardinality(Y) = n, X \subseteq Y, X # Y
               PROVE  X \in F
    OBVIOUS
  <2>1. Y \in SUBSET Key /\ Y \subseteq S /\ IsFiniteSet(Y) BY TreeSets
  <2>2. ~IsLeaf(Y) BY <1>0 DEF IsLeaf
  <2>3. PICK q \in Nat : Split(Y, q) /\ Side(Y, q, 0) \in F /\ Side(Y, q, 1) \in F BY <2>2 DEF IsTree
  <2>4. \E b \in {0, 1} : X \subseteq Side(Y, q, b)
    <3>1. CASE IsLeaf(X)
      <4>1. PICK k \in X : X = {k} BY <3>1 DEF IsLeaf
      <4>2. bit[k][q] \in {0, 1} BY <1>0, <4>1, BitsOK
      <4> QED BY <4>1, <4>2 DEF Side
    <3>2. CASE \E p \in Nat : Split(X, p) /\ \A k \in S \ X : Apart(k, X, p)
      <4>1. PICK p \in Nat : Split(X, p) /\ \A k \in S \ X : Apart(k, X, p) BY <3>2
      <4>2. PICK j \in X : TRUE BY <1>0
      <4>3. PICK k \in Y : k \notin X OBVIOUS
      <4>4. k \in S \ X /\ j \in Y BY <2>1, <4>3
      <4>5. PICK i \in Nat : i < p /\ bit[k][i] # bit[j][i] BY <4>1, <4>2, <4>4 DEF Apart
      <4>6. ~(i < q) BY <2>3, <4>4, <4>5 DEF Split
      <4>7. q < p BY <4>5, <4>6
      <4>8. \A x \in X : bit[x][q] = bit[j][q] BY <4>1, <4>7 DEF Split
      <4>9. bit[j][q] \in {0, 1} BY <1>0, BitsOK
      <4> QED BY <4>8, <4>9 DEF Side
    <3> QED BY <3>1, <3>2 DEF Part
  <2>5. PICK b \in {0, 1} : X \subseteq Side(Y, q, b) BY <2>4
  <2>6. Side(Y, q, b) \in F BY <2>3
  <2>7. Cardinality(Side(Y, q, b)) \in Nat /\ Cardinality(Side(Y, q, b)) < n BY <2>1, <2>3, SplitSides
  <2>8. Cardinality(Side(Y, q, b)) \in 0 .. n - 1 BY <2>7
  <2> QED BY <2>5, <2>6, <2>8
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. S \in F /\ Cardinality(S) \in Nat BY FS_CardinalityType DEF IsTree
<1> QED BY <1>0, <1>2, <1>3

\* What an insert may share with its base, and has to: the nodes below which none of its keys belongs.
THEOREM Shared ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S),
         NEW U \in SUBSET Key, IsFiniteSet(U), NEW G, IsTree(G, S \union U),
         NEW X \in F, X \intersect U = {},
         \A p \in Nat : Split(X, p) => \A u \in U : Apart(u, X, p)
  PROVE  X \in G
<1>1. Part(X, S) BY NodesAreParts
<1>2. S \union U \in SUBSET Key /\ IsFiniteSet(S \union U) BY FS_Union
<1>3. Part(X, S \union U) BY <1>1 DEF Part
<1> QED BY <1>2, <1>3, PartsAreNodes

\* How the new tree is put together (`create_tree'): given some nodes of it, with all its keys, two of them whose keys
\* differ first at p, and no two of them that differ first beyond p, have a common parent.
THEOREM PutTogether ==
  ASSUME NEW T \in SUBSET Key, IsFiniteSet(T), NEW G, IsTree(G, T),
         NEW N \in SUBSET G, UNION N = T,
         NEW X \in N, NEW Y \in N, X # Y, NEW p \in Nat,
         NEW x \in X, NEW y \in Y, bit[x][p] # bit[y][p], \A i \in Nat : i < p => bit[x][i] = bit[y][i],
         \A A, B \in N : A # B => \A a \in A, b \in B : \E i \in Nat : i <= p /\ bit[a][i] # bit[b][i]
  PROVE  X \union Y \in G /\ Split(X \union Y, p)
<1>1. X \subseteq T /\ Y \subseteq T /\ X \in SUBSET Key /\ Y \in SUBSET Key BY TreeSets
<1>2. x \notin Y /\ y \notin X OBVIOUS
<1>3. ASSUME NEW z \in X PROVE \A i \in Nat : i <= p => bit[z][i] = bit[x][i]
  <2>1. CASE IsLeaf(X) BY <2>1 DEF IsLeaf
  <2>2. CASE ~IsLeaf(X)
    <3>1. PICK q \in Nat : Split(X, q) /\ \A k \in T \ X : Apart(k, X, q) BY <2>2, NodesAreParts DEF Part
    <3>2. PICK i \in Nat : i < q /\ bit[y][i] # bit[x][i] BY <1>1, <1>2, <3>1 DEF Apart
    <3>3. p < q BY <3>2
    <3> QED BY <3>1, <3>3 DEF Split
  <2> QED BY <2>1, <2>2
<1>4. ASSUME NEW z \in Y PROVE \A i \in Nat : i <= p => bit[z][i] = bit[y][i]
  <2>1. CASE IsLeaf(Y) BY <2>1 DEF IsLeaf
  <2>2. CASE ~IsLeaf(Y)
    <3>1. PICK q \in Nat : Split(Y, q) /\ \A k \in T \ Y : Apart(k, Y, q) BY <2>2, NodesAreParts DEF Part
    <3>2. PICK i \in Nat : i < q /\ bit[x][i] # bit[y][i] BY <1>1, <1>2, <3>1 DEF Apart
    <3>3. p < q BY <3>2
    <3> QED BY <3>1, <3>3 DEF Split
  <2> QED BY <2>1, <2>2
<1>5. \A z \in X \union Y : \A i \in Nat : i < p => bit[z][i] = bit[x][i] BY <1>3, <1>4
<1>6. Split(X \union Y, p) BY <1>5 DEF Split
<1>7. ASSUME NEW k \in T \ (X \union Y), NEW z \in X \union Y PROVE \E i \in Nat : i < p /\ bit[k][i] # bit[z][i]
  <2>1. PICK Z \in N : k \in Z OBVIOUS
  <2>2. Z # X /\ Z # Y BY <2>1
  <2>3. PICK i \in Nat : i <= p /\ bit[k][i] # bit[x][i] BY <2>1, <2>2
  <2>4. PICK j \in Nat : j <= p /\ bit[k][j] # bit[y][j] BY <2>1, <2>2
  <2>5. bit[k][p] \in {0, 1} /\ bit[x][p] \in {0, 1} /\ bit[y][p] \in {0, 1} BY <1>1, BitsOK
  <2>6. CASE i < p BY <1>5, <2>3, <2>6
  <2>7. CASE i = p
    <3>1. bit[k][p] = bit[y][p] BY <2>3, <2>5, <2>7
    <3>2. j < p BY <2>4, <3>1
    <3>3. bit[y][j] = bit[x][j] BY <3>2
    <3> QED BY <1>5, <2>4, <3>2, <3>3
  <2> QED BY <2>3, <2>6, <2>7
<1>8. Part(X \union Y, T) BY <1>1, <1>6, <1>7 DEF Part, Apart
<1> QED BY <1>6, <1>8, PartsAreNodes

\* The nodes below a node are a tree
THEOREM PartTree ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW X \in F
  PROVE  IsTree({Y \in F : Y \subseteq X}, X)
<1> DEFINE H == {Y \in F : Y \subseteq X}
<1>0. X \in SUBSET Key /\ X # {} /\ IsFiniteSet(X) BY TreeSets
<1>1. X \in H /\ H \subseteq SUBSET X OBVIOUS
<1>2. \A Y \in H : Y # {} BY TreeSets
<1>3. ASSUME NEW Y \in H, ~IsLeaf(Y) PROVE \E p \in Nat : Split(Y, p) /\ Side(Y, p, 0) \in H /\ Side(Y, p, 1) \in H
  <2>1. PICK p \in Nat : Split(Y, p) /\ Side(Y, p, 0) \in F /\ Side(Y, p, 1) \in F BY <1>3 DEF IsTree
  <2>2. Side(Y, p, 0) \subseteq Y /\ Side(Y, p, 1) \subseteq Y BY DEF Side
  <2> QED BY <2>1, <2>2
<1>4. ASSUME NEW Y \in H, Y # X PROVE \E Z \in H, p \in Nat, b \in {0, 1} : Split(Z, p) /\ Y = Side(Z, p, b)
  <2>0. Y \in F /\ Y \subseteq X /\ Y # {} BY <1>2
  <2>1. Y # S BY <1>4, <2>0, TreeSets
  <2>2. PICK Z \in F, p \in Nat, b \in {0, 1} : Split(Z, p) /\ Y = Side(Z, p, b) BY <2>0, <2>1 DEF IsTree
  <2>3. Z \in SUBSET Key /\ Z \subseteq S BY TreeSets
  <2>4. Z \subseteq X
    <3> SUFFICES ASSUME NEW z \in Z, z \notin X PROVE FALSE OBVIOUS
    <3>1. Part(X, S) BY NodesAreParts
    <3>2. ~IsLeaf(X) BY <1>4, <2>0 DEF IsLeaf
    <3>3. PICK q \in Nat : Split(X, q) /\ \A k \in S \ X : Apart(k, X, q) BY <3>1, <3>2 DEF Part
    <3>4. PICK y \in Y : TRUE BY <2>0
    <3>5. PICK i \in Nat : i < q /\ bit[z][i] # bit[y][i] BY <2>0, <2>3, <3>3, <3>4 DEF Apart
    <3>6. y \in Z BY <2>2, <3>4 DEF Side
    <3>7. ~(i < p) BY <2>2, <3>5, <3>6 DEF Split
    <3>8. p < q BY <2>2, <3>3, <3>5, <3>7
    <3>9. \A x \in X : bit[x][p] = bit[y][p] /\ (\A n \in Nat : n < p => bit[x][n] = bit[y][n])
      BY <2>0, <2>2, <3>3, <3>4, <3>8 DEF Split
    <3>10. bit[y][p] = b BY <2>2, <3>4 DEF Side
    \* so that a key of X outside Y, agreeing with y up to and at p, is not in Z: but Z is a part as well
    <3>11. PICK x \in X : x \notin Y BY <1>4, <2>0
    <3>12. x \notin Z BY <2>2, <3>9, <3>10, <3>11 DEF Side
    <3>13. x \in S BY TreeSets
    <3>14. Part(Z, S) BY NodesAreParts
    <3>15. ~IsLeaf(Z) BY <2>2, <2>3, LeafUnsplit
    <3>16. PICK r \in Nat : Split(Z, r) /\ \A k \in S \ Z : Apart(k, Z, r) BY <3>14, <3>15 DEF Part
    <3>17. r = p BY <2>2, <2>3, <3>16, SplitUnique
    <3>18. PICK n \in Nat : n < p /\ bit[x][n] # bit[y][n] BY <3>6, <3>12, <3>13, <3>16, <3>17 DEF Apart
    <3> QED BY <3>9, <3>18
  <2> QED BY <2>2, <2>4
<1> HIDE DEF H
<1>5. IsTree(H, X) BY <1>1, <1>2, <1>3, <1>4 DEF IsTree
<1> QED BY <1>5 DEF H

\* C04, C10, C16: the root of contents that are part of stored contents is the name of a stored node, which stands
\* for just them
THEOREM PartRoot ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val], NEW h, Named(h, F, m),
         NEW X, Part(X, S), NEW w \in [X -> Val], \A k \in X : w[k] = m[k], NEW r, Stands(r, X, w)
  PROVE  X \in F /\ h[X] = r
<1>1. X \in F BY PartsAreNodes
<1>2. X \in SUBSET Key /\ X \subseteq S /\ X # {} /\ IsFiniteSet(X) BY <1>1, TreeSets
<1> DEFINE H == {Y \in F : Y \subseteq X}
           g == [Y \in H |-> h[Y]]
<1>3. IsTree(H, X) BY <1>1, PartTree
<1>4. Named(g, H, w)
  <2>1. g \in [H -> Hash] BY DEF Named
  <2>2. ASSUME NEW Y \in H, NEW k \in Key, Y = {k} PROVE g[Y] = HLeaf(k, w[k])
    <3>1. h[Y] = HLeaf(k, m[k]) /\ k \in X BY <2>2 DEF Named
    <3> QED BY <3>1
  <2>3. ASSUME NEW Y \in H, NEW p \in Nat, Split(Y, p) PROVE g[Y] = HBranch(g[Side(Y, p, 0)], g[Side(Y, p, 1)])
    <3>1. h[Y] = HBranch(h[Side(Y, p, 0)], h[Side(Y, p, 1)]) BY <2>3 DEF Named
    <3>2. Side(Y, p, 0) \in H /\ Side(Y, p, 1) \in H BY <1>2, <1>3, <2>3, SplitInside
    <3> HIDE DEF H
    <3> QED BY <3>1, <3>2
  <2> HIDE DEF H, g
  <2> QED BY <2>1, <2>2, <2>3 DEF Named
<1>5. H \in SUBSET SUBSET X /\ X \in H BY <1>1
<1>6. g \in [H -> Hash] /\ g[X] = h[X]
  <2>1. g \in [H -> Hash] BY DEF Named
  <2> QED BY <1>5, <2>1
<1> HIDE DEF H, g
<1>7. Stands(g[X], X, w) BY <1>2, <1>3, <1>4, <1>5, <1>6 DEF Stands
<1>8. g[X] = r BY <1>7, EqualRoots
<1> QED BY <1>1, <1>6, <1>8

\* C01, C07: looking a key up. On the way down the side of its bit is the only one it can be on, and at a node whose
\* keys it does not agree with up to the split it is not below.
THEOREM WayDown ==
  ASSUME NEW X \in SUBSET Key, NEW p \in Nat, Split(X, p), NEW k \in Key
  PROVE  /\ k \in X => k \in Side(X, p, bit[k][p])
         /\ \A y \in X : (\E i \in Nat : i < p /\ bit[k][i] # bit[y][i]) => k \notin X
BY DEF Split, Side
=============================================================================
