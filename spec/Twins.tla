--------------------------------- MODULE Twins ---------------------------------
(***************************************************************************)
(* C13: two stores with the same history, one that writes at once (the     *)
(* maps in memory) and one that holds writes back until the commit and     *)
(* reads only what has been committed (the store on disk).  What is held   *)
(* back does not survive closing the store, so every call has to end with  *)
(* nothing held back, and no call may rely on reading what it has not yet  *)
(* committed.                                                              *)
(*                                                                         *)
(* `held' is what the second store holds back between calls.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

CONSTANTS Width, ByteLen, InsKey, Val, MaxLive, DepthLimit, Bug

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Key == 0 .. Pow2(Width) - 1
KeyBits == [k \in Key |-> [i \in 1 .. Width |-> (k \div Pow2(Width - i)) % 2]]
QueryMax == 1
MaxCuts == 0
Requests == 0
cuts == 0

VARIABLES now,    \* the store that writes at once
          later,  \* what the other one has committed
          held,   \* and what it holds back
          live, rootN, rootL
vars == <<now, later, held, live, rootN, rootL>>

N == INSTANCE MerkleStore WITH Staged <- FALSE, db <- now, root <- rootN
L == INSTANCE MerkleStore WITH Staged <- TRUE, db <- later, root <- rootL

Init == now = <<>> /\ later = <<>> /\ held = <<>> /\ live = <<>> /\ rootN = <<>> /\ rootL = <<>>

\* a call on the second store goes on with what is held back, and leaves behind what it has not committed
With(e) == [e EXCEPT !.st = @ @@ held]
InsertL(base, upd) ==
  LET r == L!InsertOp(later, L!RootOf(base), upd, L!Unlimited)
      e == With(r.e)
  IN [ok |-> r.ok, top |-> r.top, e |-> IF r.ok THEN L!Commit(e) ELSE e]
RemoveL(r) ==
  LET e == With(L!RemoveQueue(L!Begin(later, L!Unlimited), <<r>>))
  IN IF Bug = "uncommitted remove" THEN e ELSE L!Commit(e)

InsertBoth(base, upd) ==
  /\ base = <<>> \/ base \in DOMAIN live
  /\ N!Handles < MaxLive
  /\ LET a == N!InsertOp(now, N!RootOf(base), upd, N!Unlimited)
         b == InsertL(base, upd)
         m == upd @@ base
     IN /\ now' = a.e.db
        /\ later' = b.e.db /\ held' = b.e.st
        /\ Assert(a.ok = b.ok, "one store grants what the other refuses")
        /\ IF a.ok THEN /\ live' = N!AddHandle(live, m)
                        /\ rootN' = (m :> a.top) @@ rootN
                        /\ rootL' = (m :> b.top) @@ rootL
                   ELSE UNCHANGED <<live, rootN, rootL>>
RemoveBoth(m) ==
  /\ m \in DOMAIN live
  /\ now' = N!RemoveOp(now, rootN[m], N!Unlimited).db
  /\ LET e == RemoveL(rootL[m]) IN later' = e.db /\ held' = e.st
  /\ live' = N!DropHandle(live, m)
  /\ rootN' = [x \in DOMAIN live' |-> rootN[x]]
  /\ rootL' = [x \in DOMAIN live' |-> rootL[x]]
\* closing both stores and opening them again
Reopen == held' = <<>> /\ UNCHANGED <<now, later, live, rootN, rootL>>

Next == \/ \E base \in {<<>>} \union DOMAIN live, upd \in N!Maps : InsertBoth(base, upd)
        \/ \E m \in DOMAIN live : RemoveBoth(m)
        \/ Reopen
Spec == Init /\ [][Next]_vars

SameStore == now = later
SameRoots == rootN = rootL
NothingHeld == held = <<>>
SameAnswers ==
  \A m \in DOMAIN live : \A k \in Key :
    /\ N!Descend(now, rootN[m], k, 0) = L!Descend(later, rootL[m], k, 0)
    /\ N!Get(now, rootN[m], {k}) = L!Get(later, rootL[m], {k})
=============================================================================
