--------------------------- MODULE RefCountProofs ---------------------------
(***************************************************************************)
(* RefCount keeps its invariants, for any graph of nodes and any history:  *)
(* checked by tlapm.                                                       *)
(***************************************************************************)
EXTENDS RefCount, FiniteSetTheorems, TLAPS

ASSUME OwnersOK == Owners = Nat

LEMMA ParentsFinite ==
  ASSUME TypeOK, NEW l \in Loc PROVE IsFiniteSet(Parents(l)) /\ Cardinality(Parents(l)) \in Nat
<1>1. Parents(l) \subseteq stored BY DEF Parents
<1>2. IsFiniteSet(Parents(l)) BY <1>1, FS_Subset DEF TypeOK
<1> QED BY <1>2, FS_CardinalityType

LEMMA NotOwnKid == \A n \in Loc : n \notin Kids[n]
<1> TAKE n \in Loc
<1>1. IsFiniteSet({n}) BY FS_Singleton
<1> QED BY <1>1, KidsOK DEF Acyclic

THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. TypeOK BY FS_EmptySet DEF Init, TypeOK
<1>2. ASSUME NEW l \in Loc PROVE Parents(l) = {} BY DEF Init, Parents
<1>3. Cardinality({}) = 0 BY FS_EmptySet
<1> QED BY <1>1, <1>2, <1>3 DEF Init, Inv, RefsExact

LEMMA AddParent ==
  ASSUME TypeOK, NEW n \in Loc, n \notin stored, stored' = stored \union {n}, NEW l \in Loc
  PROVE  Cardinality(Parents(l)') = Cardinality(Parents(l)) + (IF l \in Kids[n] THEN 1 ELSE 0)
<1>1. IsFiniteSet(Parents(l)) /\ Cardinality(Parents(l)) \in Nat BY ParentsFinite
<1>2. CASE l \in Kids[n]
  <2>1. Parents(l)' = Parents(l) \union {n} BY <1>2 DEF Parents
  <2>2. n \notin Parents(l) BY DEF Parents
  <2> QED BY <1>1, <1>2, <2>1, <2>2, FS_AddElement
<1>3. CASE l \notin Kids[n]
  <2>1. Parents(l)' = Parents(l) BY <1>3 DEF Parents
  <2> QED BY <1>1, <1>3, <2>1
<1> QED BY <1>2, <1>3

LEMMA DropParent ==
  ASSUME TypeOK, NEW n \in Loc, n \in stored, stored' = stored \ {n}, NEW l \in Loc
  PROVE  Cardinality(Parents(l)') = Cardinality(Parents(l)) - (IF l \in Kids[n] THEN 1 ELSE 0)
<1>1. IsFiniteSet(Parents(l)) /\ Cardinality(Parents(l)) \in Nat BY ParentsFinite
<1>2. CASE l \in Kids[n]
  <2>1. Parents(l)' = Parents(l) \ {n} BY <1>2 DEF Parents
  <2>2. n \in Parents(l) BY <1>2 DEF Parents
  <2> QED BY <1>1, <1>2, <2>1, <2>2, FS_RemoveElement
<1>3. CASE l \notin Kids[n]
  <2>1. Parents(l)' = Parents(l) BY <1>3 DEF Parents
  <2> QED BY <1>1, <1>3, <2>1
<1> QED BY <1>2, <1>3

LEMMA SameParents ==
  ASSUME stored' = stored, NEW l \in Loc PROVE Cardinality(Parents(l)') = Cardinality(Parents(l))
BY DEF Parents

LEMMA HasParent ==
  ASSUME TypeOK, NEW l \in Loc, NEW p \in stored, l \in Kids[p] PROVE Cardinality(Parents(l)) >= 1
<1>1. IsFiniteSet(Parents(l)) /\ Cardinality(Parents(l)) \in Nat BY ParentsFinite
<1>2. Parents(l) # {} BY DEF Parents
<1>3. Cardinality(Parents(l)) # 0 BY <1>1, <1>2, FS_EmptySet
<1> QED BY <1>1, <1>3

THEOREM StepInv == ASSUME Bug = "none", Inv, [Step]_vars PROVE Inv'
<1> USE KidsOK
<1>0. TypeOK /\ RefsExact BY DEF Inv
<1>c. \A l \in Loc : Cardinality(Parents(l)) \in Nat BY <1>0, ParentsFinite
<1>1. ASSUME NEW n \in Loc, Create(n) PROVE Inv'
  <2>1. n \notin stored /\ stored' = stored \union {n} BY <1>1 DEF Create
  <2>2. refs[n] = 0 BY <1>0, <2>1 DEF RefsExact, TypeOK
  <2>3. own[n] = 0 /\ Cardinality(Parents(n)) = 0
    <3>1. own[n] + Cardinality(Parents(n)) = 0 BY <1>0, <2>2 DEF RefsExact
    <3> QED BY <3>1, <1>0, <1>c DEF TypeOK
  <2>4. TypeOK'
    <3>1. IsFiniteSet(stored') BY <1>0, <2>1, FS_AddElement DEF TypeOK
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>1 DEF TypeOK, Create
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>1 DEF TypeOK, Create
    <3> QED BY <1>0, <2>1, <3>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] = own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) + (IF l \in Kids[n] THEN 1 ELSE 0)
      BY <1>0, <2>1, AddParent
    <3>2. refs[l] = own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsExact
    <3>3. refs'[l] = IF l = n THEN 1 ELSE refs[l] BY <1>1 DEF Create
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l] BY <1>1 DEF Create
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>3, <3>1, <3>2, <3>3, <3>4, <3>5, NotOwnKid
  <2> QED BY <2>4, <2>5 DEF Inv, RefsExact
<1>2. ASSUME NEW n \in Loc, Share(n) PROVE Inv'
  <2>1. n \in stored /\ stored' = stored BY <1>2 DEF Share
  <2>4. TypeOK' BY <1>0, <1>2 DEF TypeOK, Share
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] = own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] = own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsExact
    <3>3. refs'[l] = IF l = n THEN refs[l] + 1 ELSE refs[l] BY <1>0, <1>2 DEF Share, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE own[l] BY <1>0, <1>2 DEF Share, TypeOK
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>4, <2>5 DEF Inv, RefsExact
<1>3. ASSUME NEW n \in Loc, Again(n) PROVE Inv'
  <2>1. n \in stored /\ stored' = stored BY <1>3 DEF Again
  <2>2. ASSUME NEW k \in Kids[n] PROVE refs[k] >= 2
    <3>0. k \in Loc OBVIOUS
    <3>1. own[k] >= 1 BY <1>3 DEF Again
    <3>2. Cardinality(Parents(k)) >= 1 BY <1>0, <2>1, <3>0, HasParent
    <3>3. refs[k] = own[k] + Cardinality(Parents(k)) BY <1>0, <3>0 DEF RefsExact
    <3> QED BY <1>0, <1>c, <3>0, <3>1, <3>2, <3>3 DEF TypeOK
  <2>4. TypeOK'
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>3, <2>2 DEF TypeOK, Again
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>3 DEF TypeOK, Again
    <3> QED BY <1>0, <2>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] = own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] = own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsExact
    <3>3. refs'[l] = IF l = n THEN refs[l] + 1 ELSE IF l \in Kids[n] THEN refs[l] - 1 ELSE refs[l] BY <1>3 DEF Again
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l] BY <1>3 DEF Again
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>2, <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>4, <2>5 DEF Inv, RefsExact
<1>4. ASSUME NEW n \in Loc, Release(n) PROVE Inv'
  <2>1. n \in stored /\ stored' = stored BY <1>4 DEF Release
  <2>4. TypeOK' BY <1>0, <1>4 DEF TypeOK, Release
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] = own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] = own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsExact
    <3>3. refs'[l] = IF l = n THEN refs[l] - 1 ELSE refs[l] BY <1>0, <1>4 DEF Release, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] - 1 ELSE own[l] BY <1>0, <1>4 DEF Release, TypeOK
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3>6. own[n] >= 1 /\ refs[n] > 1 BY <1>4 DEF Release
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <3>4, <3>5, <3>6
  <2> QED BY <2>4, <2>5 DEF Inv, RefsExact
<1>5. ASSUME NEW n \in Loc, Free(n) PROVE Inv'
  <2>1. n \in stored /\ stored' = stored \ {n} BY <1>5 DEF Free
  <2>2. refs[n] = 1 /\ own[n] >= 1 BY <1>5 DEF Free
  <2>3. own[n] = 1 /\ Cardinality(Parents(n)) = 0
    <3>1. own[n] + Cardinality(Parents(n)) = 1 BY <1>0, <2>2 DEF RefsExact
    <3> QED BY <3>1, <2>2, <1>0, <1>c DEF TypeOK
  <2>4. TypeOK'
    <3>1. IsFiniteSet(stored') BY <1>0, <2>1, FS_RemoveElement DEF TypeOK
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>5 DEF TypeOK, Free
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>5 DEF TypeOK, Free
    <3> QED BY <1>0, <2>1, <3>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] = own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) - (IF l \in Kids[n] THEN 1 ELSE 0)
      BY <1>0, <2>1, DropParent
    <3>2. refs[l] = own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsExact
    <3>3. refs'[l] = IF l = n THEN 0 ELSE refs[l] BY <1>0, <1>5 DEF Free, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] - 1 ELSE IF l \in Kids[n] THEN own[l] + 1 ELSE own[l] BY <1>5 DEF Free
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>2, <2>3, <3>1, <3>2, <3>3, <3>4, <3>5, NotOwnKid
  <2> QED BY <2>4, <2>5 DEF Inv, RefsExact
<1>6. CASE UNCHANGED vars
  <2>1. stored' = stored /\ refs' = refs /\ own' = own BY <1>6 DEF vars
  <2>2. \A l \in Loc : Parents(l)' = Parents(l) BY <2>1 DEF Parents
  <2> QED BY <1>0, <2>1, <2>2 DEF Inv, TypeOK, RefsExact
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Step

THEOREM StepCutInv == ASSUME Bug = "none", CutInv, [Next]_vars PROVE CutInv'
<1> USE KidsOK
<1>0. TypeOK /\ RefsEnough BY DEF CutInv
<1>c. \A l \in Loc : Cardinality(Parents(l)) \in Nat BY <1>0, ParentsFinite
<1>1. ASSUME NEW n \in Loc, Create(n) PROVE CutInv'
  <2>1. n \notin stored /\ stored' = stored \union {n} BY <1>1 DEF Create
  <2>2. refs[n] = 0 BY <1>0, <2>1 DEF RefsEnough, TypeOK
  <2>3. own[n] = 0 /\ Cardinality(Parents(n)) = 0
    <3>1. own[n] + Cardinality(Parents(n)) <= 0 BY <1>0, <2>2 DEF RefsEnough
    <3> QED BY <3>1, <1>0, <1>c DEF TypeOK
  <2>4. TypeOK'
    <3>1. IsFiniteSet(stored') BY <1>0, <2>1, FS_AddElement DEF TypeOK
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>1 DEF TypeOK, Create
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>1 DEF TypeOK, Create
    <3> QED BY <1>0, <2>1, <3>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) + (IF l \in Kids[n] THEN 1 ELSE 0)
      BY <1>0, <2>1, AddParent
    <3>2. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>3. refs'[l] = IF l = n THEN 1 ELSE refs[l] BY <1>1 DEF Create
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l] BY <1>1 DEF Create
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>3, <3>1, <3>2, <3>3, <3>4, <3>5, NotOwnKid
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1>2. ASSUME NEW n \in Loc, Share(n) PROVE CutInv'
  <2>1. n \in stored /\ stored' = stored BY <1>2 DEF Share
  <2>4. TypeOK' BY <1>0, <1>2 DEF TypeOK, Share
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>3. refs'[l] = IF l = n THEN refs[l] + 1 ELSE refs[l] BY <1>0, <1>2 DEF Share, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE own[l] BY <1>0, <1>2 DEF Share, TypeOK
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1>3. ASSUME NEW n \in Loc, Again(n) PROVE CutInv'
  <2>1. n \in stored /\ stored' = stored BY <1>3 DEF Again
  <2>2. ASSUME NEW k \in Kids[n] PROVE refs[k] >= 2
    <3>0. k \in Loc OBVIOUS
    <3>1. own[k] >= 1 BY <1>3 DEF Again
    <3>2. Cardinality(Parents(k)) >= 1 BY <1>0, <2>1, <3>0, HasParent
    <3>3. refs[k] >= own[k] + Cardinality(Parents(k)) BY <1>0, <3>0 DEF RefsEnough
    <3> QED BY <1>0, <1>c, <3>0, <3>1, <3>2, <3>3 DEF TypeOK
  <2>4. TypeOK'
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>3, <2>2 DEF TypeOK, Again
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>3 DEF TypeOK, Again
    <3> QED BY <1>0, <2>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>3. refs'[l] = IF l = n THEN refs[l] + 1 ELSE IF l \in Kids[n] THEN refs[l] - 1 ELSE refs[l] BY <1>3 DEF Again
    <3>4. own'[l] = IF l = n THEN own[l] + 1 ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l] BY <1>3 DEF Again
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>2, <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1>4. ASSUME NEW n \in Loc, Release(n) PROVE CutInv'
  <2>1. n \in stored /\ stored' = stored BY <1>4 DEF Release
  <2>4. TypeOK' BY <1>0, <1>4 DEF TypeOK, Release
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) BY <2>1, SameParents
    <3>2. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>3. refs'[l] = IF l = n THEN refs[l] - 1 ELSE refs[l] BY <1>0, <1>4 DEF Release, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] - 1 ELSE own[l] BY <1>0, <1>4 DEF Release, TypeOK
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3>6. own[n] >= 1 /\ refs[n] > 1 BY <1>4 DEF Release
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <3>4, <3>5, <3>6
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1>5. ASSUME NEW n \in Loc, Free(n) PROVE CutInv'
  <2>1. n \in stored /\ stored' = stored \ {n} BY <1>5 DEF Free
  <2>2. refs[n] = 1 /\ own[n] >= 1 BY <1>5 DEF Free
  <2>3. own[n] = 1 /\ Cardinality(Parents(n)) = 0
    <3>1. own[n] + Cardinality(Parents(n)) <= 1 BY <1>0, <2>2 DEF RefsEnough
    <3> QED BY <3>1, <2>2, <1>0, <1>c DEF TypeOK
  <2>4. TypeOK'
    <3>1. IsFiniteSet(stored') BY <1>0, <2>1, FS_RemoveElement DEF TypeOK
    <3>2. refs' \in [Loc -> Nat] BY <1>0, <1>5 DEF TypeOK, Free
    <3>3. own' \in [Loc -> Nat] BY <1>0, <1>5 DEF TypeOK, Free
    <3> QED BY <1>0, <2>1, <3>1, <3>2, <3>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. Cardinality(Parents(l)') = Cardinality(Parents(l)) - (IF l \in Kids[n] THEN 1 ELSE 0)
      BY <1>0, <2>1, DropParent
    <3>2. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>3. refs'[l] = IF l = n THEN 0 ELSE refs[l] BY <1>0, <1>5 DEF Free, TypeOK
    <3>4. own'[l] = IF l = n THEN own[l] - 1 ELSE IF l \in Kids[n] THEN own[l] + 1 ELSE own[l] BY <1>5 DEF Free
    <3>5. own[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c DEF TypeOK
    <3> QED BY <2>1, <2>2, <2>3, <3>1, <3>2, <3>3, <3>4, <3>5, NotOwnKid
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1>6. CASE UNCHANGED vars
  <2>1. stored' = stored /\ refs' = refs /\ own' = own BY <1>6 DEF vars
  <2>2. \A l \in Loc : Parents(l)' = Parents(l) BY <2>1 DEF Parents
  <2> QED BY <1>0, <2>1, <2>2 DEF CutInv, TypeOK, RefsEnough
<1>7. CASE Die
  <2>1. stored' = stored /\ refs' = refs BY <1>7 DEF Die
  <2>2. \A l \in Loc : Parents(l)' = Parents(l) BY <2>1 DEF Parents
  <2>3. own' \in [Loc -> Nat] /\ \A l \in Loc : own'[l] <= own[l] BY <1>7, OwnersOK DEF Die
  <2>4. TypeOK' BY <1>0, <2>1, <2>3 DEF TypeOK
  <2>5. ASSUME NEW l \in Loc
        PROVE refs'[l] >= own'[l] + Cardinality(Parents(l)') /\ ((l \in stored') <=> (refs'[l] > 0))
    <3>1. refs[l] >= own[l] + Cardinality(Parents(l)) /\ ((l \in stored) <=> (refs[l] > 0)) BY <1>0 DEF RefsEnough
    <3>2. own[l] \in Nat /\ own'[l] \in Nat /\ refs[l] \in Nat /\ Cardinality(Parents(l)) \in Nat BY <1>0, <1>c, <2>3 DEF TypeOK
    <3> QED BY <2>1, <2>2, <2>3, <3>1, <3>2
  <2> QED BY <2>4, <2>5 DEF CutInv, RefsEnough
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next, Step

THEOREM Safe == ASSUME Bug = "none", ~Cuts PROVE Spec => []Inv
<1>1. Init => Inv BY InitInv
<1>2. Inv /\ [Next]_vars => Inv' BY StepInv DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM CutReadable == CutInv => Readable
<1> SUFFICES ASSUME CutInv PROVE Readable OBVIOUS
<1> USE KidsOK
<1>0. TypeOK /\ RefsEnough BY DEF CutInv
<1>1. ASSUME NEW l \in Loc, own[l] >= 1 PROVE l \in stored
  <2>1. Cardinality(Parents(l)) \in Nat BY <1>0, ParentsFinite
  <2>2. refs[l] >= own[l] + Cardinality(Parents(l)) BY <1>0 DEF RefsEnough
  <2>3. refs[l] > 0 BY <1>0, <1>1, <2>1, <2>2 DEF TypeOK
  <2> QED BY <1>0, <2>3 DEF RefsEnough
<1>2. ASSUME NEW p \in stored, NEW k \in Kids[p] PROVE k \in stored
  <2>0. p \in Loc /\ k \in Loc BY <1>0 DEF TypeOK
  <2>1. Cardinality(Parents(k)) >= 1 /\ Cardinality(Parents(k)) \in Nat BY <1>0, <2>0, HasParent, ParentsFinite
  <2>2. refs[k] >= own[k] + Cardinality(Parents(k)) BY <1>0, <2>0 DEF RefsEnough
  <2>3. refs[k] > 0 BY <1>0, <2>0, <2>1, <2>2 DEF TypeOK
  <2> QED BY <1>0, <2>0, <2>3 DEF RefsEnough
<1> QED BY <1>1, <1>2 DEF Readable

THEOREM ExactEnough == Inv => CutInv
<1> SUFFICES ASSUME Inv PROVE CutInv OBVIOUS
<1>1. \A l \in Loc : Cardinality(Parents(l)) \in Nat BY ParentsFinite DEF Inv
<1> QED BY <1>1 DEF Inv, CutInv, RefsExact, RefsEnough, TypeOK

THEOREM InvExact == Inv => Exact
<1> SUFFICES ASSUME Inv, NEW S \in SUBSET Loc, Owned \subseteq S,
                    \A p \in S \intersect stored : Kids[p] \subseteq S,
                    stored \ S # {}
             PROVE FALSE
  BY DEF Exact
<1> USE KidsOK
<1>0. TypeOK /\ RefsExact BY DEF Inv
<1> DEFINE U == stored \ S
<1>1. IsFiniteSet(U) /\ U \in SUBSET Loc
  <2>1. U \subseteq stored OBVIOUS
  <2> QED BY <1>0, <2>1, FS_Subset DEF TypeOK
<1>2. PICK l \in U : \A p \in U : l \notin Kids[p] BY <1>1 DEF Acyclic
<1>3. l \in Loc /\ l \in stored /\ l \notin S BY <1>0, <1>2 DEF TypeOK
<1>4. own[l] = 0 BY <1>0, <1>3 DEF Owned, TypeOK
<1>5. refs[l] > 0 /\ refs[l] = own[l] + Cardinality(Parents(l)) BY <1>0, <1>3 DEF RefsExact
<1>6. Cardinality(Parents(l)) \in Nat BY <1>0, <1>3, ParentsFinite
<1>7. Parents(l) # {} BY <1>4, <1>5, <1>6, FS_EmptySet
<1>8. PICK p \in stored : l \in Kids[p] BY <1>7 DEF Parents
<1>9. CASE p \in S BY <1>3, <1>8, <1>9
<1>10. CASE p \notin S BY <1>2, <1>8, <1>10
<1> QED BY <1>9, <1>10

\* without crashes: what is owned can be read, and nothing else is stored (C02, C03, C04, C16)
THEOREM Sound == ASSUME Bug = "none", ~Cuts PROVE Spec => [](Readable /\ Exact)
<1>1. Inv => Readable /\ Exact BY CutReadable, ExactEnough, InvExact
<1> QED BY <1>1, Safe, PTL

\* with crashes anywhere: what is owned can be read (C12)
THEOREM CutSound == ASSUME Bug = "none" PROVE Spec => []Readable
<1>1. Init => CutInv BY InitInv, ExactEnough
<1>2. CutInv /\ [Next]_vars => CutInv' BY StepCutInv
<1>3. CutInv => Readable BY CutReadable
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
