--------------------------- MODULE PatriciaProofs ---------------------------
(***************************************************************************)
(* Theorems about well-formed trees of any size: checked by tlapm.         *)
(***************************************************************************)
EXTENDS Patricia, FiniteSetTheorems, NaturalsInduction, TLAPS

----------------------------------------------------------------------------
(* A set of keys is split in one way.                                      *)

LEMMA SplitUnique ==
  ASSUME NEW X \in SUBSET Key, NEW p, NEW q, Split(X, p), Split(X, q) PROVE p = q
<1>1. p \in Nat /\ q \in Nat BY DEF Split
<1>2. ~(p < q) BY DEF Split
<1>3. ~(q < p) BY DEF Split
<1> QED BY <1>1, <1>2, <1>3

LEMMA SplitSides ==
  ASSUME NEW X \in SUBSET Key, IsFiniteSet(X), NEW p, Split(X, p), NEW b \in {0, 1}
  PROVE  /\ Side(X, p, b) # {} /\ Side(X, p, b) \subseteq X /\ Side(X, p, b) # X
         /\ IsFiniteSet(Side(X, p, b))
         /\ Cardinality(Side(X, p, b)) \in Nat /\ Cardinality(X) \in Nat
         /\ Cardinality(Side(X, p, b)) < Cardinality(X)
         /\ X = Side(X, p, 0) \union Side(X, p, 1)
<1> USE BitsOK
<1>1. PICK j \in X, k \in X : bit[j][p] # bit[k][p] BY DEF Split
<1>2. p \in Nat BY DEF Split
<1>3. bit[j][p] \in {0, 1} /\ bit[k][p] \in {0, 1} BY <1>2
<1>4. /\ Side(X, p, b) # {}
      /\ Side(X, p, b) \subseteq X
      /\ Side(X, p, b) # X
  BY <1>1, <1>3 DEF Side
<1>5. IsFiniteSet(Side(X, p, b)) BY <1>4, FS_Subset
<1>6. Cardinality(Side(X, p, b)) \in Nat /\ Cardinality(X) \in Nat BY <1>5, FS_CardinalityType
<1>7. Cardinality(Side(X, p, b)) < Cardinality(X)
  <2>1. Cardinality(Side(X, p, b)) <= Cardinality(X) BY <1>4, FS_Subset
  <2>2. Cardinality(Side(X, p, b)) # Cardinality(X) BY <1>4, FS_Subset
  <2> QED BY <1>6, <2>1, <2>2
<1>8. X = Side(X, p, 0) \union Side(X, p, 1) BY <1>2 DEF Side
<1> QED BY <1>4, <1>5, <1>6, <1>7, <1>8

LEMMA LeafUnsplit ==
  ASSUME NEW X \in SUBSET Key, NEW p, Split(X, p) PROVE ~IsLeaf(X)
BY DEF Split, IsLeaf

LEMMA TreeSets ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW X \in F
  PROVE  X \in SUBSET Key /\ X \subseteq S /\ X # {} /\ IsFiniteSet(X)
         /\ Cardinality(X) \in Nat /\ Cardinality(X) <= Cardinality(S) /\ Cardinality(S) \in Nat
<1>1. X \subseteq S /\ X # {} BY DEF IsTree
<1>2. IsFiniteSet(X) /\ Cardinality(X) <= Cardinality(S) BY <1>1, FS_Subset
<1> QED BY <1>1, <1>2, FS_CardinalityType

----------------------------------------------------------------------------
(* C05, C11: there is one well-formed tree over a set of keys.             *)

LEMMA TreeIncluded ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW G, IsTree(G, S)
  PROVE  F \subseteq G
<1> DEFINE P(n) == \A X \in F : Cardinality(S) - Cardinality(X) = n => X \in G
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i),
                      NEW X \in F, Cardinality(S) - Cardinality(X) = n
               PROVE  X \in G
    OBVIOUS
  <2>1. CASE X = S BY <2>1 DEF IsTree
  <2>2. CASE X # S
    <3>1. PICK Y \in F, p \in Nat, b \in {0, 1} : Split(Y, p) /\ X = Side(Y, p, b) BY <2>2 DEF IsTree
    <3>2. Y \in SUBSET Key /\ IsFiniteSet(Y) /\ Cardinality(Y) \in Nat /\ Cardinality(Y) <= Cardinality(S) /\ Cardinality(S) \in Nat
      BY TreeSets
    <3>3. Cardinality(X) < Cardinality(Y) /\ Cardinality(X) \in Nat BY <3>1, <3>2, SplitSides
    <3>4. Cardinality(S) - Cardinality(Y) \in 0 .. n - 1 BY <3>2, <3>3
    <3>5. Y \in G BY <3>4
    <3>6. ~IsLeaf(Y) BY <3>1, <3>2, LeafUnsplit
    <3>7. PICK q \in Nat : Split(Y, q) /\ Side(Y, q, 0) \in G /\ Side(Y, q, 1) \in G BY <3>5, <3>6 DEF IsTree
    <3>8. q = p BY <3>1, <3>2, <3>7, SplitUnique
    <3> QED BY <3>1, <3>7, <3>8
  <2> QED BY <2>1, <2>2
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. ASSUME NEW X \in F PROVE X \in G
  <2>1. Cardinality(S) - Cardinality(X) \in Nat BY TreeSets
  <2> QED BY <1>2, <2>1
<1> QED BY <1>3

THEOREM TreeUnique ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW G, IsTree(G, S)
  PROVE  F = G
<1>1. F \subseteq G BY TreeIncluded
<1>2. G \subseteq F BY TreeIncluded
<1> QED BY <1>1, <1>2

----------------------------------------------------------------------------
(* C06: equal names mean equal contents.                                   *)

LEMMA NodeCases ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val], NEW h, Named(h, F, m),
         NEW X \in F
  PROVE  \/ \E k \in S : X = {k} /\ h[X] = HLeaf(k, m[k])
         \/ \E p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                           /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                           /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
<1>0. X \subseteq S BY TreeSets
<1>1. CASE IsLeaf(X)
  <2>1. PICK k \in X : X = {k} BY <1>1 DEF IsLeaf
  <2>2. k \in S /\ k \in Key BY <1>0, <2>1
  <2>3. h[X] = HLeaf(k, m[k]) BY <2>1, <2>2 DEF Named
  <2> QED BY <2>1, <2>2, <2>3
<1>2. CASE ~IsLeaf(X)
  <2>1. PICK p \in Nat : Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F BY <1>2 DEF IsTree
  <2>2. h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)]) BY <2>1 DEF Named
  <2>3. h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash BY <2>1 DEF Named
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2

LEMMA SameContents ==
  ASSUME NoCollisions,
         NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val], NEW h, Named(h, F, m),
         NEW T \in SUBSET Key, IsFiniteSet(T), NEW G, IsTree(G, T), NEW w \in [T -> Val], NEW g, Named(g, G, w)
  PROVE  \A X \in F, Y \in G : h[X] = g[Y] => X = Y /\ \A k \in X : m[k] = w[k]
<1> DEFINE P(n) == \A X \in F, Y \in G : Cardinality(X) = n /\ h[X] = g[Y] => X = Y /\ \A k \in X : m[k] = w[k]
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i),
                      NEW X \in F, NEW Y \in G, Cardinality(X) = n, h[X] = g[Y]
               PROVE  X = Y /\ \A k \in X : m[k] = w[k]
    OBVIOUS
  <2>0. X \in SUBSET Key /\ X \subseteq S /\ IsFiniteSet(X) /\ Y \in SUBSET Key /\ Y \subseteq T /\ IsFiniteSet(Y) BY TreeSets
  <2>1. CASE \E k \in S : X = {k} /\ h[X] = HLeaf(k, m[k])
    <3>1. PICK k \in S : X = {k} /\ h[X] = HLeaf(k, m[k]) BY <2>1
    <3>2. k \in Key /\ m[k] \in Val OBVIOUS
    <3>3. CASE \E j \in T : Y = {j} /\ g[Y] = HLeaf(j, w[j])
      <4>1. PICK j \in T : Y = {j} /\ g[Y] = HLeaf(j, w[j]) BY <3>3
      <4>2. j \in Key /\ w[j] \in Val OBVIOUS
      <4>3. HLeaf(k, m[k]) = HLeaf(j, w[j]) BY <3>1, <4>1
      <4>4. k = j /\ m[k] = w[j] BY <3>2, <4>2, <4>3 DEF NoCollisions
      <4> QED BY <3>1, <4>1, <4>4
    <3>4. CASE \E q \in Nat : /\ g[Side(Y, q, 0)] \in Hash /\ g[Side(Y, q, 1)] \in Hash
                              /\ g[Y] = HBranch(g[Side(Y, q, 0)], g[Side(Y, q, 1)])
      BY <3>1, <3>2, <3>4 DEF NoCollisions
    <3> QED BY <3>3, <3>4, NodeCases
  <2>2. CASE \E p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                            /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                            /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
    <3>1. PICK p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                           /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                           /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
      BY <2>2
    <3>2. CASE \E j \in T : Y = {j} /\ g[Y] = HLeaf(j, w[j])
      BY <3>1, <3>2 DEF NoCollisions
    <3>3. CASE \E q \in Nat : /\ Split(Y, q) /\ Side(Y, q, 0) \in G /\ Side(Y, q, 1) \in G
                              /\ g[Side(Y, q, 0)] \in Hash /\ g[Side(Y, q, 1)] \in Hash
                              /\ g[Y] = HBranch(g[Side(Y, q, 0)], g[Side(Y, q, 1)])
      <4>1. PICK q \in Nat : /\ Split(Y, q) /\ Side(Y, q, 0) \in G /\ Side(Y, q, 1) \in G
                             /\ g[Side(Y, q, 0)] \in Hash /\ g[Side(Y, q, 1)] \in Hash
                             /\ g[Y] = HBranch(g[Side(Y, q, 0)], g[Side(Y, q, 1)])
        BY <3>3
      <4>2. h[Side(X, p, 0)] = g[Side(Y, q, 0)] /\ h[Side(X, p, 1)] = g[Side(Y, q, 1)]
        BY <3>1, <4>1 DEF NoCollisions
      <4>3. /\ Cardinality(Side(X, p, 0)) \in Nat /\ Cardinality(Side(X, p, 0)) < n
            /\ Cardinality(Side(X, p, 1)) \in Nat /\ Cardinality(Side(X, p, 1)) < n
            /\ X = Side(X, p, 0) \union Side(X, p, 1)
        BY <2>0, <3>1, SplitSides
      <4>4. Y = Side(Y, q, 0) \union Side(Y, q, 1) BY <2>0, <4>1, SplitSides
      <4>5. Side(X, p, 0) = Side(Y, q, 0) /\ \A k \in Side(X, p, 0) : m[k] = w[k]
        <5>1. Cardinality(Side(X, p, 0)) \in 0 .. n - 1 BY <4>3
        <5> QED BY <3>1, <4>1, <4>2, <5>1
      <4>6. Side(X, p, 1) = Side(Y, q, 1) /\ \A k \in Side(X, p, 1) : m[k] = w[k]
        <5>1. Cardinality(Side(X, p, 1)) \in 0 .. n - 1 BY <4>3
        <5> QED BY <3>1, <4>1, <4>2, <5>1
      <4> QED BY <4>3, <4>4, <4>5, <4>6
    <3> QED BY <3>2, <3>3, NodeCases
  <2> QED BY <2>1, <2>2, NodeCases
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. ASSUME NEW X \in F, NEW Y \in G, h[X] = g[Y] PROVE X = Y /\ \A k \in X : m[k] = w[k]
  <2>1. Cardinality(X) \in Nat BY TreeSets
  <2> QED BY <1>2, <1>3, <2>1
<1> QED BY <1>3

\* C06
THEOREM DifferentRoots ==
  ASSUME NoCollisions, NEW r, NEW S, NEW m, Stands(r, S, m), NEW T, NEW w, Stands(r, T, w)
  PROVE  S = T /\ m = w
<1>1. S \in SUBSET Key /\ IsFiniteSet(S) /\ m \in [S -> Val] BY DEF Stands
<1>2. T \in SUBSET Key /\ IsFiniteSet(T) /\ w \in [T -> Val] BY DEF Stands
<1>33. PICK F \in SUBSET SUBSET S : \E h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY DEF Stands
<1>3. PICK h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY <1>33
<1>44. PICK G \in SUBSET SUBSET T : \E g \in [G -> Hash] : IsTree(G, T) /\ Named(g, G, w) /\ r = g[T] BY DEF Stands
<1>4. PICK g \in [G -> Hash] : IsTree(G, T) /\ Named(g, G, w) /\ r = g[T] BY <1>44
<1>5. S \in F /\ T \in G BY <1>3, <1>4 DEF IsTree
<1>6. S = T /\ \A k \in S : m[k] = w[k] BY <1>1, <1>2, <1>3, <1>4, <1>5, SameContents
<1> QED BY <1>1, <1>2, <1>6

----------------------------------------------------------------------------
(* C05: equal contents have equal roots.                                   *)

LEMMA SameNames ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val],
         NEW h, Named(h, F, m), NEW g, Named(g, F, m)
  PROVE  \A X \in F : h[X] = g[X]
<1> DEFINE P(n) == \A X \in F : Cardinality(X) = n => h[X] = g[X]
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i), NEW X \in F, Cardinality(X) = n
               PROVE  h[X] = g[X]
    OBVIOUS
  <2>0. X \in SUBSET Key /\ X \subseteq S /\ IsFiniteSet(X) BY TreeSets
  <2>1. CASE \E k \in S : X = {k} /\ h[X] = HLeaf(k, m[k])
    <3>1. PICK k \in S : X = {k} /\ h[X] = HLeaf(k, m[k]) BY <2>1
    <3>2. g[X] = HLeaf(k, m[k]) BY <3>1 DEF Named
    <3> QED BY <3>1, <3>2
  <2>2. CASE \E p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                            /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
    <3>1. PICK p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                           /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
      BY <2>2
    <3>2. g[X] = HBranch(g[Side(X, p, 0)], g[Side(X, p, 1)]) BY <3>1 DEF Named
    <3>3. /\ Cardinality(Side(X, p, 0)) \in Nat /\ Cardinality(Side(X, p, 0)) < n
          /\ Cardinality(Side(X, p, 1)) \in Nat /\ Cardinality(Side(X, p, 1)) < n
      BY <2>0, <3>1, SplitSides
    <3>4. Cardinality(Side(X, p, 0)) \in 0 .. n - 1 /\ Cardinality(Side(X, p, 1)) \in 0 .. n - 1 BY <3>3
    <3>5. h[Side(X, p, 0)] = g[Side(X, p, 0)] /\ h[Side(X, p, 1)] = g[Side(X, p, 1)] BY <3>1, <3>4
    <3> QED BY <3>1, <3>2, <3>5
  <2> QED BY <2>1, <2>2, NodeCases
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. ASSUME NEW X \in F PROVE h[X] = g[X]
  <2>1. Cardinality(X) \in Nat BY TreeSets
  <2> QED BY <1>2, <2>1
<1> QED BY <1>3

THEOREM EqualRoots ==
  ASSUME NEW S, NEW m, NEW r, Stands(r, S, m), NEW q, Stands(q, S, m)
  PROVE  r = q
<1>1. S \in SUBSET Key /\ IsFiniteSet(S) /\ m \in [S -> Val] BY DEF Stands
<1>33. PICK F \in SUBSET SUBSET S : \E h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY DEF Stands
<1>3. PICK h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY <1>33
<1>44. PICK G \in SUBSET SUBSET S : \E g \in [G -> Hash] : IsTree(G, S) /\ Named(g, G, m) /\ q = g[S] BY DEF Stands
<1>4. PICK g \in [G -> Hash] : IsTree(G, S) /\ Named(g, G, m) /\ q = g[S] BY <1>44
<1>5. G = F BY <1>1, <1>3, <1>4, TreeUnique
<1>6. S \in F BY <1>3 DEF IsTree
<1> QED BY <1>1, <1>3, <1>4, <1>5, <1>6, SameNames

----------------------------------------------------------------------------
(* C08: what is accepted is there.                                         *)

LEMMA StepUp ==
  ASSUME NoCollisions,
         NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val], NEW h, Named(h, F, m),
         NEW X \in F, NEW x \in Hash, NEW e \in Proof, h[X] = Step(x, e)
  PROVE  \E Y \in F : Y \subseteq X /\ h[Y] = x
<1>1. e.side \in {0, 1} /\ e.other \in Hash BY DEF Proof
<1>2. CASE \E k \in S : X = {k} /\ h[X] = HLeaf(k, m[k])
  BY <1>1, <1>2 DEF Step, NoCollisions
<1>3. CASE \E p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                          /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                          /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
  <2>1. PICK p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                         /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                         /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
    BY <1>3
  <2>2. Side(X, p, 0) \subseteq X /\ Side(X, p, 1) \subseteq X BY DEF Side
  <2>3. CASE e.side = 0
    <3>1. HBranch(x, e.other) = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)]) BY <2>1, <2>3 DEF Step
    <3>2. x = h[Side(X, p, 0)] BY <1>1, <2>1, <3>1 DEF NoCollisions
    <3> QED BY <2>1, <2>2, <3>2
  <2>4. CASE e.side = 1
    <3>1. HBranch(e.other, x) = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)]) BY <2>1, <2>4 DEF Step
    <3>2. x = h[Side(X, p, 1)] BY <1>1, <2>1, <3>1 DEF NoCollisions
    <3> QED BY <2>1, <2>2, <3>2
  <2> QED BY <1>1, <2>3, <2>4
<1> QED BY <1>2, <1>3, NodeCases

LEMMA LeafThere ==
  ASSUME NoCollisions,
         NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW m \in [S -> Val], NEW h, Named(h, F, m),
         NEW X \in F, NEW k \in Key, NEW v \in Val, h[X] = HLeaf(k, v)
  PROVE  k \in S /\ m[k] = v
<1>1. CASE \E j \in S : X = {j} /\ h[X] = HLeaf(j, m[j])
  <2>1. PICK j \in S : X = {j} /\ h[X] = HLeaf(j, m[j]) BY <1>1
  <2>2. j \in Key /\ m[j] \in Val OBVIOUS
  <2> QED BY <2>1, <2>2 DEF NoCollisions
<1>2. CASE \E p \in Nat : /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                          /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
  BY <1>2 DEF NoCollisions
<1> QED BY <1>1, <1>2, NodeCases

THEOREM AcceptedIsThere ==
  ASSUME NoCollisions, NEW r, NEW S, NEW m, Stands(r, S, m),
         NEW k \in Key, NEW v \in Val, NEW n \in Nat, NEW e, Accepted(r, k, v, e, n)
  PROVE  k \in S /\ m[k] = v
<1>1. S \in SUBSET Key /\ IsFiniteSet(S) /\ m \in [S -> Val] BY DEF Stands
<1>22. PICK F \in SUBSET SUBSET S : \E h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY DEF Stands
<1>2. PICK h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY <1>22
<1>3. PICK c \in [0 .. n -> Hash] : /\ c[0] = HLeaf(k, v)
                                    /\ \A i \in 1 .. n : c[i] = Step(c[i - 1], e[i])
                                    /\ c[n] = r
  BY DEF Accepted
<1>4. e \in [1 .. n -> Proof] BY DEF Accepted
<1> DEFINE P(d) == d <= n => \E X \in F : h[X] = c[n - d]
<1>5. P(0)
  <2>1. S \in F BY <1>2 DEF IsTree
  <2> QED BY <1>2, <1>3, <2>1
<1>6. ASSUME NEW d \in Nat, P(d) PROVE P(d + 1)
  <2> SUFFICES ASSUME d + 1 <= n PROVE \E X \in F : h[X] = c[n - (d + 1)] OBVIOUS
  <2>1. PICK X \in F : h[X] = c[n - d] BY <1>6
  <2>2. n - d \in 1 .. n /\ (n - d) - 1 = n - (d + 1) /\ n - (d + 1) \in 0 .. n OBVIOUS
  <2>3. c[n - d] = Step(c[n - (d + 1)], e[n - d]) BY <1>3, <2>2
  <2>4. e[n - d] \in Proof /\ c[n - (d + 1)] \in Hash BY <1>4, <2>2
  <2>5. h[X] = Step(c[n - (d + 1)], e[n - d]) BY <2>1, <2>3
  <2> QED BY <1>1, <1>2, <2>4, <2>5, StepUp
<1>7. \A d \in Nat : P(d)
  <2> HIDE DEF P
  <2> QED BY <1>5, <1>6, NatInduction, Isa
<1>8. PICK X \in F : h[X] = c[0]
  <2>1. P(n) BY <1>7
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2, <1>3, <1>8, LeafThere

----------------------------------------------------------------------------
(* C07: what is there has a proof.                                         *)

THEOREM ThereIsAccepted ==
  ASSUME NoCollisions, NEW r, NEW S, NEW m, Stands(r, S, m), NEW k \in S
  PROVE  \E n \in Nat : \E e \in [1 .. n -> Proof] : Accepted(r, k, m[k], e, n)
<1>1. S \in SUBSET Key /\ IsFiniteSet(S) /\ m \in [S -> Val] BY DEF Stands
<1>22. PICK F \in SUBSET SUBSET S : \E h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY DEF Stands
<1>2. PICK h \in [F -> Hash] : IsTree(F, S) /\ Named(h, F, m) /\ r = h[S] BY <1>22
<1>0. k \in Key /\ m[k] \in Val /\ HLeaf(k, m[k]) \in Hash BY <1>1 DEF NoCollisions
<1> DEFINE P(z) == \A X \in F : Cardinality(X) = z /\ k \in X
                      => \E n \in Nat : \E e \in [1 .. n -> Proof] : Accepted(h[X], k, m[k], e, n)
<1>3. \A z \in Nat : (\A i \in 0 .. z - 1 : P(i)) => P(z)
  <2> SUFFICES ASSUME NEW z \in Nat, \A i \in 0 .. z - 1 : P(i), NEW X \in F, Cardinality(X) = z, k \in X
               PROVE  \E n \in Nat : \E e \in [1 .. n -> Proof] : Accepted(h[X], k, m[k], e, n)
    OBVIOUS
  <2>0. X \in SUBSET Key /\ X \subseteq S /\ IsFiniteSet(X) BY <1>1, <1>2, TreeSets
  <2>1. CASE \E j \in S : X = {j} /\ h[X] = HLeaf(j, m[j])
    <3>1. h[X] = HLeaf(k, m[k]) BY <2>1
    <3> DEFINE e == [i \in 1 .. 0 |-> [side |-> 0, other |-> h[X]]]
               c == [i \in 0 .. 0 |-> h[X]]
    <3>2. e \in [1 .. 0 -> Proof] OBVIOUS
    <3>3. c \in [0 .. 0 -> Hash] BY <1>0, <3>1
    <3>4. c[0] = h[X] OBVIOUS
    <3>5. Accepted(h[X], k, m[k], e, 0)
      <4>1. \A i \in 1 .. 0 : c[i] = Step(c[i - 1], e[i]) OBVIOUS
      <4> HIDE DEF c, e
      <4> QED BY <3>1, <3>2, <3>3, <3>4, <4>1 DEF Accepted
    <3> HIDE DEF e
    <3> QED BY <3>2, <3>5
  <2>2. CASE \E p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                            /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                            /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
    <3>1. PICK p \in Nat : /\ Split(X, p) /\ Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
                           /\ h[Side(X, p, 0)] \in Hash /\ h[Side(X, p, 1)] \in Hash
                           /\ h[X] = HBranch(h[Side(X, p, 0)], h[Side(X, p, 1)])
      BY <2>2
    <3>2. X = Side(X, p, 0) \union Side(X, p, 1) BY <2>0, <3>1, SplitSides
    <3>3. PICK b \in {0, 1} : k \in Side(X, p, b) BY <3>2
    <3> DEFINE Y == Side(X, p, b)
               last == [side |-> b, other |-> h[Side(X, p, 1 - b)]]
    <3>4. Y \in F /\ 1 - b \in {0, 1} /\ h[Y] \in Hash BY <3>1
    <3>5. last \in Proof BY <3>1, <3>4 DEF Proof
    <3>6. h[X] = Step(h[Y], last) BY <3>1 DEF Step
    <3>7. Cardinality(Y) \in Nat /\ Cardinality(Y) < z BY <2>0, <3>1, SplitSides
    <3>8. Cardinality(Y) \in 0 .. z - 1 BY <3>7
    <3> HIDE DEF Y, last
    <3>9. k \in Y BY <3>3 DEF Y
    <3>10. PICK n \in Nat : \E e \in [1 .. n -> Proof] : Accepted(h[Y], k, m[k], e, n) BY <3>4, <3>8, <3>9
    <3>11. PICK e \in [1 .. n -> Proof] : Accepted(h[Y], k, m[k], e, n) BY <3>10
    <3>12. PICK c \in [0 .. n -> Hash] : /\ c[0] = HLeaf(k, m[k])
                                         /\ \A i \in 1 .. n : c[i] = Step(c[i - 1], e[i])
                                         /\ c[n] = h[Y]
      BY <3>11 DEF Accepted
    <3> DEFINE f == [i \in 1 .. n + 1 |-> IF i = n + 1 THEN last ELSE e[i]]
               d == [i \in 0 .. n + 1 |-> IF i = n + 1 THEN h[X] ELSE c[i]]
    <3>13. h[X] \in Hash BY <1>2
    <3>14. f \in [1 .. n + 1 -> Proof]
      <4>1. ASSUME NEW i \in 1 .. n + 1, i # n + 1 PROVE i \in 1 .. n BY <4>1
      <4> QED BY <3>5, <4>1
    <3>15. d \in [0 .. n + 1 -> Hash]
      <4>1. ASSUME NEW i \in 0 .. n + 1, i # n + 1 PROVE i \in 0 .. n BY <4>1
      <4> QED BY <3>13, <4>1
    <3>16. d[0] = HLeaf(k, m[k]) /\ d[n + 1] = h[X]
      <4>1. 0 \in 0 .. n + 1 /\ 0 # n + 1 /\ n + 1 \in 0 .. n + 1 OBVIOUS
      <4> QED BY <3>12, <4>1
    <3>17. ASSUME NEW i \in 1 .. n + 1 PROVE d[i] = Step(d[i - 1], f[i])
      <4>0. i \in 0 .. n + 1 /\ i - 1 \in 0 .. n + 1 /\ i - 1 # n + 1 /\ d[i - 1] = c[i - 1] OBVIOUS
      <4>1. CASE i = n + 1
        <5>1. d[i] = h[X] /\ f[i] = last /\ i - 1 = n BY <4>0, <4>1
        <5> QED BY <3>6, <3>12, <4>0, <5>1
      <4>2. CASE i # n + 1
        <5>1. i \in 1 .. n BY <4>2
        <5>2. d[i] = c[i] /\ f[i] = e[i] BY <4>0, <4>2
        <5> QED BY <3>12, <4>0, <5>1, <5>2
      <4> QED BY <4>1, <4>2
    <3> HIDE DEF f, d
    <3>18. Accepted(h[X], k, m[k], f, n + 1) BY <3>14, <3>15, <3>16, <3>17 DEF Accepted
    <3> QED BY <3>14, <3>18
  <2> QED BY <1>1, <1>2, <2>1, <2>2, NodeCases
<1>4. \A z \in Nat : P(z)
  <2> HIDE DEF P
  <2> QED BY <1>3, GeneralNatInduction, IsaM("blast")
<1>5. S \in F /\ Cardinality(S) \in Nat BY <1>1, <1>2, FS_CardinalityType DEF IsTree
<1> QED BY <1>2, <1>4, <1>5

----------------------------------------------------------------------------
(* C01: every set of pairs can be stored.                                  *)

LEMMA SplitExists ==
  ASSUME NEW S \in SUBSET Key, S # {}, ~IsLeaf(S) PROVE \E p \in Nat : Split(S, p)
<1> DEFINE D(i) == \E j, k \in S : bit[j][i] # bit[k][i]
<1>1. PICK j \in S : TRUE OBVIOUS
<1>2. PICK k \in S : k # j BY <1>1 DEF IsLeaf
<1>3. PICK i \in Nat : bit[j][i] # bit[k][i] BY <1>2, KeysDiffer
<1>4. \E n \in Nat : D(n) BY <1>3
<1>5. \E n \in Nat : D(n) /\ \A z \in 0 .. n - 1 : ~D(z)
  <2> HIDE DEF D
  <2> QED BY <1>4, SmallestNatural, IsaM("blast")
<1>6. PICK p \in Nat : D(p) /\ \A z \in 0 .. p - 1 : ~D(z) BY <1>5
<1>7. \A z \in Nat : z < p => ~D(z)
  <2>1. \A z \in Nat : z < p => z \in 0 .. p - 1 OBVIOUS
  <2> HIDE DEF D
  <2> QED BY <1>6, <2>1
<1> QED BY <1>6, <1>7 DEF Split

LEMMA SplitInside ==
  ASSUME NEW S \in SUBSET Key, IsFiniteSet(S), NEW F, IsTree(F, S), NEW X \in F, NEW p \in Nat, Split(X, p)
  PROVE  Side(X, p, 0) \in F /\ Side(X, p, 1) \in F
<1>1. X \in SUBSET Key BY TreeSets
<1>2. ~IsLeaf(X) BY <1>1, LeafUnsplit
<1>3. PICK q \in Nat : Split(X, q) /\ Side(X, q, 0) \in F /\ Side(X, q, 1) \in F BY <1>2 DEF IsTree
<1>4. q = p BY <1>1, <1>3, SplitUnique
<1> QED BY <1>3, <1>4

LEMMA Join ==
  ASSUME NoCollisions, NEW S \in SUBSET Key, IsFiniteSet(S), NEW m, NEW p \in Nat, Split(S, p),
         NEW F, NEW h, IsTree(F, Side(S, p, 0)), Named(h, F, m),
         NEW G, NEW g, IsTree(G, Side(S, p, 1)), Named(g, G, m)
  PROVE  \E H, f : IsTree(H, S) /\ Named(f, H, m)
<1> DEFINE Z == Side(S, p, 0)
           O == Side(S, p, 1)
           H == {S} \union F \union G
           top == HBranch(h[Z], g[O])
           f == [X \in H |-> IF X \in F THEN h[X] ELSE IF X \in G THEN g[X] ELSE top]
<1>1. /\ Z # {} /\ Z \subseteq S /\ Z # S /\ IsFiniteSet(Z) /\ Z \in SUBSET Key
      /\ O # {} /\ O \subseteq S /\ O # S /\ IsFiniteSet(O) /\ O \in SUBSET Key
  BY SplitSides
<1>2. Z \intersect O = {} BY DEF Side
<1>3. \A X \in F : X \subseteq Z /\ X # {} /\ X \in SUBSET Key BY <1>1 DEF IsTree
<1>4. \A X \in G : X \subseteq O /\ X # {} /\ X \in SUBSET Key BY <1>1 DEF IsTree
<1>5. F \intersect G = {} BY <1>2, <1>3, <1>4
<1>6. S \notin F /\ S \notin G BY <1>1, <1>3, <1>4
<1>7. Z \in F /\ O \in G BY DEF IsTree
<1>8. ~IsLeaf(S) BY LeafUnsplit
<1>9. f[S] = top /\ (\A X \in F : f[X] = h[X]) /\ (\A X \in G : f[X] = g[X]) BY <1>5, <1>6
<1>10. IsTree(H, S)
  <2>1. S \in H /\ H \subseteq SUBSET S /\ \A X \in H : X # {} BY <1>1, <1>3, <1>4
  <2>2. ASSUME NEW X \in H, ~IsLeaf(X)
        PROVE  \E q \in Nat : Split(X, q) /\ Side(X, q, 0) \in H /\ Side(X, q, 1) \in H
    <3>1. CASE X = S BY <1>7, <3>1
    <3>2. CASE X \in F
      <4>1. PICK q \in Nat : Split(X, q) /\ Side(X, q, 0) \in F /\ Side(X, q, 1) \in F BY <2>2, <3>2 DEF IsTree
      <4> QED BY <4>1
    <3>3. CASE X \in G
      <4>1. PICK q \in Nat : Split(X, q) /\ Side(X, q, 0) \in G /\ Side(X, q, 1) \in G BY <2>2, <3>3 DEF IsTree
      <4> QED BY <4>1
    <3> QED BY <3>1, <3>2, <3>3
  <2>3. ASSUME NEW X \in H, X # S PROVE \E Y \in H, q \in Nat, b \in {0, 1} : Split(Y, q) /\ X = Side(Y, q, b)
    <3>1. CASE X = Z BY <3>1
    <3>2. CASE X = O BY <3>2
    <3>3. CASE X \in F /\ X # Z
      <4>1. PICK Y \in F, q \in Nat, b \in {0, 1} : Split(Y, q) /\ X = Side(Y, q, b) BY <3>3 DEF IsTree
      <4> QED BY <4>1
    <3>4. CASE X \in G /\ X # O
      <4>1. PICK Y \in G, q \in Nat, b \in {0, 1} : Split(Y, q) /\ X = Side(Y, q, b) BY <3>4 DEF IsTree
      <4> QED BY <4>1
    <3> QED BY <2>3, <3>1, <3>2, <3>3, <3>4
  <2> HIDE DEF H
  <2> QED BY <2>1, <2>2, <2>3 DEF IsTree
<1>11. Named(f, H, m)
  <2>1. f \in [H -> Hash]
    <3>1. \A X \in F : h[X] \in Hash BY DEF Named
    <3>2. \A X \in G : g[X] \in Hash BY DEF Named
    <3>3. top \in Hash BY <1>7, <3>1, <3>2 DEF NoCollisions
    <3> HIDE DEF top
    <3> QED BY <3>1, <3>2, <3>3
  <2>2. ASSUME NEW X \in H, NEW k \in Key, X = {k} PROVE f[X] = HLeaf(k, m[k])
    <3>1. CASE X = S BY <1>8, <2>2, <3>1 DEF IsLeaf
    <3>2. CASE X \in F BY <1>9, <2>2, <3>2 DEF Named
    <3>3. CASE X \in G BY <1>9, <2>2, <3>3 DEF Named
    <3> QED BY <3>1, <3>2, <3>3
  <2>3. ASSUME NEW X \in H, NEW q \in Nat, Split(X, q) PROVE f[X] = HBranch(f[Side(X, q, 0)], f[Side(X, q, 1)])
    <3>1. CASE X = S
      <4>1. q = p BY <2>3, <3>1, SplitUnique
      <4> QED BY <1>7, <1>9, <3>1, <4>1
    <3>2. CASE X \in F
      <4>1. Side(X, q, 0) \in F /\ Side(X, q, 1) \in F BY <1>1, <2>3, <3>2, SplitInside
      <4>2. h[X] = HBranch(h[Side(X, q, 0)], h[Side(X, q, 1)]) BY <2>3, <3>2 DEF Named
      <4> HIDE DEF f
      <4> QED BY <1>9, <3>2, <4>1, <4>2
    <3>3. CASE X \in G
      <4>1. Side(X, q, 0) \in G /\ Side(X, q, 1) \in G BY <1>1, <2>3, <3>3, SplitInside
      <4>2. g[X] = HBranch(g[Side(X, q, 0)], g[Side(X, q, 1)]) BY <2>3, <3>3 DEF Named
      <4> HIDE DEF f
      <4> QED BY <1>9, <3>3, <4>1, <4>2
    <3> QED BY <3>1, <3>2, <3>3
  <2> HIDE DEF f, H
  <2> QED BY <2>1, <2>2, <2>3 DEF Named
<1> QED BY <1>10, <1>11

LEMMA TreeExists ==
  ASSUME NoCollisions, NEW T \in SUBSET Key, IsFiniteSet(T), NEW m \in [T -> Val]
  PROVE  \A S \in SUBSET T : S # {} => \E F, h : IsTree(F, S) /\ Named(h, F, m)
<1> DEFINE P(n) == \A S \in SUBSET T : S # {} /\ Cardinality(S) = n => \E F, h : IsTree(F, S) /\ Named(h, F, m)
<1>1. \A n \in Nat : (\A i \in 0 .. n - 1 : P(i)) => P(n)
  <2> SUFFICES ASSUME NEW n \in Nat, \A i \in 0 .. n - 1 : P(i), NEW S \in SUBSET T, S # {}, Cardinality(S) = n
               PROVE  \E F, h : IsTree(F, S) /\ Named(h, F, m)
    OBVIOUS
  <2>0. S \in SUBSET Key /\ IsFiniteSet(S) BY FS_Subset
  <2>1. CASE IsLeaf(S)
    <3>1. PICK k \in S : S = {k} BY <2>1 DEF IsLeaf
    <3>2. k \in Key /\ m[k] \in Val /\ HLeaf(k, m[k]) \in Hash BY <3>1 DEF NoCollisions
    <3> DEFINE F == {S}
               h == [X \in F |-> HLeaf(k, m[k])]
    <3>3. IsTree(F, S) BY <2>1 DEF IsTree
    <3>4. Named(h, F, m)
      <4>1. h \in [F -> Hash] BY <3>2
      <4>2. ASSUME NEW X \in F, NEW j \in Key, X = {j} PROVE h[X] = HLeaf(j, m[j]) BY <3>1, <4>2
      <4>3. ASSUME NEW X \in F, NEW q \in Nat, Split(X, q) PROVE FALSE BY <2>0, <2>1, <4>3, LeafUnsplit
      <4> HIDE DEF h, F
      <4> QED BY <4>1, <4>2, <4>3 DEF Named
    <3> QED BY <3>3, <3>4
  <2>2. CASE ~IsLeaf(S)
    <3>1. PICK p \in Nat : Split(S, p) BY <2>0, <2>2, SplitExists
    <3> DEFINE Z == Side(S, p, 0)
               O == Side(S, p, 1)
    <3>2. /\ Z # {} /\ Z \subseteq S /\ Cardinality(Z) \in Nat /\ Cardinality(Z) < n
          /\ O # {} /\ O \subseteq S /\ Cardinality(O) \in Nat /\ Cardinality(O) < n
      BY <2>0, <3>1, SplitSides
    <3>3. Z \in SUBSET T /\ O \in SUBSET T /\ Cardinality(Z) \in 0 .. n - 1 /\ Cardinality(O) \in 0 .. n - 1 BY <3>2
    <3>4. \E F, h : IsTree(F, Z) /\ Named(h, F, m) BY <3>2, <3>3
    <3>5. \E G, g : IsTree(G, O) /\ Named(g, G, m) BY <3>2, <3>3
    <3>6. PICK F, h : IsTree(F, Z) /\ Named(h, F, m) BY <3>4
    <3>7. PICK G, g : IsTree(G, O) /\ Named(g, G, m) BY <3>5
    <3> QED BY <2>0, <3>1, <3>6, <3>7, Join
  <2> QED BY <2>1, <2>2
<1>2. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, IsaM("blast")
<1>3. ASSUME NEW S \in SUBSET T, S # {} PROVE \E F, h : IsTree(F, S) /\ Named(h, F, m)
  <2>1. Cardinality(S) \in Nat BY FS_Subset, FS_CardinalityType
  <2> QED BY <1>2, <1>3, <2>1
<1> QED BY <1>3

THEOREM Storable ==
  ASSUME NoCollisions, NEW S \in SUBSET Key, IsFiniteSet(S), S # {}, NEW m \in [S -> Val]
  PROVE  \E r \in Hash : Stands(r, S, m)
<1>1. S \in SUBSET S OBVIOUS
<1>2. \E F, h : IsTree(F, S) /\ Named(h, F, m) BY <1>1, TreeExists
<1>3. PICK F, h : IsTree(F, S) /\ Named(h, F, m) BY <1>2
<1>4. F \in SUBSET SUBSET S /\ S \in F BY <1>3 DEF IsTree
<1>5. h \in [F -> Hash] BY <1>3 DEF Named
<1> QED BY <1>3, <1>4, <1>5 DEF Stands
=============================================================================
