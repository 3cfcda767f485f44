------------------------------ MODULE RefCount ------------------------------
(***************************************************************************)
(* Why sharing is safe, for stores of any size and histories of any        *)
(* length: the reference counting of the tree, apart from keys and hashes. *)
(*                                                                         *)
(* A location determines the children of the node stored there (it is the  *)
(* hash of them), so `Kids' is a constant.  A count is owed to each parent *)
(* in the store and to each owner: the live roots, and, while a call is    *)
(* under way, the nodes it holds on to (the queue of `remove', the         *)
(* `TreeRef's of `insert').  The steps are the only things the code does   *)
(* to the store:                                                           *)
(*                                                                         *)
(*   Create   insert_leaves, merge_nodes: a new node takes over the        *)
(*            references its maker holds on its children                   *)
(*   Share    add_reference, insert_leaves on a leaf that is there         *)
(*   Again    merge_nodes on a branch that is there: it has its references *)
(*            on the children already, so those of its maker are released  *)
(*   Release  remove, where others still refer to the node                 *)
(*   Free     remove, where nobody does: the node goes, and its references *)
(*            to the children are now held by the queue                    *)
(*   Die      the process dies: owners are forgotten, all else stays       *)
(*            (each step is one or two writes after another that each      *)
(*            leave no count too small, so nothing is lost by taking them  *)
(*            together: what is missing then is as if Die had come first)  *)
(*                                                                         *)
(* TLC checks this for small graphs, and that each of `Bug' is noticed;    *)
(* the proofs (RefCountProofs, tlapm) are for any graph.  MerkleStore checks the same      *)
(* invariant (RefsExact) on what the calls of the code do as a whole, and  *)
(* MerkleTrace on what they really did.                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Loc,     \* the locations
          Kids,    \* location |-> the set of its children
          Cuts,    \* BOOLEAN: the process may die
          Owners,  \* how many owners a location may have: Nat, less for TLC
          Bug      \* the mistake made, or "none"

VARIABLES stored, refs, own
vars == <<stored, refs, own>>

\* no node is below itself: a set of nodes has one that is below none of them
Acyclic == \A S \in SUBSET Loc : IsFiniteSet(S) /\ S # {} =>
              \E l \in S : \A p \in S : l \notin Kids[p]

ASSUME KidsOK == Kids \in [Loc -> SUBSET Loc] /\ Acyclic
ASSUME BugOK == Bug \in {"none", "share_uncounted", "again_keeps", "create_keeps", "free_early", "free_keeps"}

Parents(l) == {p \in stored : l \in Kids[p]}

Init == /\ stored = {}
        /\ refs = [l \in Loc |-> 0]
        /\ own = [l \in Loc |-> 0]

Create(n) ==
  /\ n \in Loc \ stored
  /\ \A k \in Kids[n] : own[k] >= 1
  /\ stored' = stored \union {n}
  /\ refs' = IF Bug = "create_keeps" THEN [l \in Loc |-> IF l = n \/ l \in Kids[n] THEN refs[l] + 1 ELSE refs[l]]
             ELSE [l \in Loc |-> IF l = n THEN 1 ELSE refs[l]]
  /\ own' = [l \in Loc |-> IF l = n THEN own[l] + 1
                           ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l]]

Share(n) ==
  /\ n \in stored
  /\ own[n] + 1 \in Owners
  /\ stored' = stored
  /\ refs' = IF Bug = "share_uncounted" THEN refs ELSE [refs EXCEPT ![n] = @ + 1]
  /\ own' = [own EXCEPT ![n] = @ + 1]

Again(n) ==
  /\ n \in stored
  /\ own[n] + 1 \in Owners
  /\ \A k \in Kids[n] : own[k] >= 1
  /\ stored' = stored
  /\ refs' = [l \in Loc |-> IF l = n THEN refs[l] + 1
                            ELSE IF l \in Kids[n] /\ Bug # "again_keeps" THEN refs[l] - 1 ELSE refs[l]]
  /\ own' = [l \in Loc |-> IF l = n THEN own[l] + 1
                           ELSE IF l \in Kids[n] THEN own[l] - 1 ELSE own[l]]

Release(n) ==
  /\ n \in stored /\ own[n] >= 1 /\ refs[n] > 1
  /\ stored' = stored
  /\ refs' = [refs EXCEPT ![n] = @ - 1]
  /\ own' = [own EXCEPT ![n] = @ - 1]

Free(n) ==
  /\ n \in stored /\ own[n] >= 1
  /\ refs[n] = 1 \/ (Bug = "free_early" /\ refs[n] = 2)
  /\ stored' = stored \ {n}
  /\ refs' = [refs EXCEPT ![n] = 0]
  /\ own' = [l \in Loc |-> IF l = n THEN own[l] - 1
                           ELSE IF l \in Kids[n] /\ Bug # "free_keeps" THEN own[l] + 1 ELSE own[l]]
  /\ \A l \in Loc : own'[l] \in Owners

Die == /\ own' \in [Loc -> Owners]
       /\ \A l \in Loc : own'[l] <= own[l]
       /\ UNCHANGED <<stored, refs>>

Step == \E n \in Loc : Create(n) \/ Share(n) \/ Again(n) \/ Release(n) \/ Free(n)
Next == Step \/ (Cuts /\ Die)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == /\ stored \in SUBSET Loc
          /\ IsFiniteSet(stored)
          /\ refs \in [Loc -> Nat]
          /\ own \in [Loc -> Nat]

\* every count is owed to a parent or an owner, and only what is owed something is stored
RefsExact == \A l \in Loc : /\ refs[l] = own[l] + Cardinality(Parents(l))
                            /\ (l \in stored) <=> (refs[l] > 0)
Inv == TypeOK /\ RefsExact

\* C12: where a process may have died, counts may be too large, never too small
RefsEnough == \A l \in Loc : /\ refs[l] >= own[l] + Cardinality(Parents(l))
                             /\ (l \in stored) <=> (refs[l] > 0)
CutInv == TypeOK /\ RefsEnough

\* C02, C03: whatever is owned, above all the live roots, is there with all that is below it
Readable == /\ \A l \in Loc : own[l] >= 1 => l \in stored
            /\ \A p \in stored : Kids[p] \subseteq stored

\* C04: nothing is stored that is not below something owned
Owned == {l \in Loc : own[l] >= 1}
Exact == \A S \in SUBSET Loc :
            Owned \subseteq S /\ (\A p \in S \intersect stored : Kids[p] \subseteq S) => stored \subseteq S
=============================================================================
