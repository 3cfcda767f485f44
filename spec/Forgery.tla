-------------------------------- MODULE Forgery --------------------------------
(***************************************************************************)
(* verify_inclusion_proof as a machine that reads a proof element by       *)
(* element, against an adversary who chooses the root, the key, the value  *)
(* and every element: any hash that stands for a node of any tree over     *)
(* the keys, any key as a hash, or a hash that stands for nothing.         *)
(* Hashes are terms (Trees; that this is sound is Preimages).              *)
(*                                                                         *)
(* The adversary gives up where no continuation can be accepted: folding   *)
(* only makes terms larger, so what is no part of the root never becomes   *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Trees, TLC, Integers

CONSTANTS Width,     \* bits of a key
          Val,
          Most,      \* most keys in the contents of a root
          MaxLen,    \* longest proof
          Bug

VARIABLES goal,      \* <<root, key, value>>: the claim
          m,         \* ghost: the contents the root stands for, <<>> if it is no root of a version
          proof,     \* the elements read
          cur,       \* the hash so far
          state      \* "data", "leaf", "path" or "rejected"
vars == <<goal, m, proof, cur, state>>

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Key == 0 .. Pow2(Width) - 1
Bits == [k \in Key |-> [i \in 1 .. Width |-> (k \div Pow2(Width - i)) % 2]]
Diffs == [a \in Key, b \in Key |-> FirstDiff(Bits[a], Bits[b])]
Canon(c) == CanonOf(c, Diffs, Bits)

Contents == UNION {[S -> Val] : S \in {T \in SUBSET Key : T # {} /\ Cardinality(T) <= Most}}
Roots == [c \in Contents |-> Canon(c)]
Stored == UNION {Nodes(Roots[c]) : c \in Contents}
Nothing == <<"n", 0, 0>>
Hashes == Stored \union {Nothing}

\* the only proof of k at the root of c
RECURSIVE PathOf(_, _)
PathOf(t, k) == IF Kind(t) = "l" THEN <<>>
                ELSE IF \E x \in LeavesOf(t[2]) : x[1] = k THEN Append(PathOf(t[2], k), <<t[3], TRUE>>)
                ELSE Append(PathOf(t[3], k), <<t[2], FALSE>>)
Genuine(c, k) == <<<<D(k, c[k]), FALSE>>, <<L(k, c[k]), FALSE>>>> \o PathOf(Canon(c), k)
\* the sides of the first two elements are not looked at
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : p[i][1] = q[i][1] /\ (i <= 2 \/ p[i][2] = q[i][2])

Init == \E c \in Contents, k \in Key, v \in Val :
          /\ goal = <<Roots[c], k, v>>
          /\ m = c
          /\ proof = <<>> /\ cur = <<>> /\ state = "data"

Read(e) ==
  /\ Len(proof) < MaxLen
  /\ state # "rejected"
  /\ proof' = Append(proof, e)
  /\ CASE state = "data" ->
            LET d == D(goal[2], goal[3])
            IN IF e[1] = d \/ Bug = "data unread" THEN state' = "leaf" /\ cur' = e[1]
               ELSE state' = "rejected" /\ cur' = cur
       [] state = "leaf" ->
            LET l == L(goal[2], goal[3])
            IN IF e[1] = l \/ Bug \in {"leaf unread", "leaf taken on trust"}
               THEN state' = "path" /\ cur' = IF Bug = "leaf taken on trust" THEN e[1] ELSE l
               ELSE state' = "rejected" /\ cur' = cur
       [] state = "path" ->
            /\ state' = "path"
            /\ IF Bug = "stops at the root" /\ cur = goal[1] THEN cur' = cur
               ELSE IF Bug = "unknown sibling skipped" /\ e[1] = Nothing THEN cur' = cur
               ELSE cur' = IF e[2] \/ (Bug = "side unread" /\ Br(cur, e[1]) \in Nodes(goal[1])) THEN Br(cur, e[1]) ELSE Br(e[1], cur)
  /\ state' = "path" => cur' \in Nodes(goal[1])     \* gives up otherwise
  /\ UNCHANGED <<goal, m>>
Next == \E h \in Hashes, s \in BOOLEAN : Read(<<h, s>>)
Spec == Init /\ [][Next]_vars

Accepted == \/ state = "path" /\ cur = goal[1]
            \/ Bug = "short" /\ state = "leaf" /\ goal[1] = L(goal[2], goal[3])

\* C08
OnlyMembers == Accepted => goal[2] \in DOMAIN m /\ m[goal[2]] = goal[3]
OnlyGenuine == Accepted => Same(proof, Genuine(m, goal[2]))
\* C07: the genuine proof gets through, and it is as long as the leaf is deep
GenuineAccepted ==
  proof = <<>> => \A k \in DOMAIN m :
    LET p == Genuine(m, k)
    IN /\ Verify(goal[1], k, m[k], p)
       /\ Len(p) = 2 + DepthOf(k, DOMAIN m, Diffs)
\* the machine is the function of Trees
Agrees == Bug = "none" => (Accepted <=> Verify(goal[1], goal[2], goal[3], proof))
\* no root stands for two different contents (C06)
ASSUME RootsDiffer == Cardinality({Roots[c] : c \in Contents}) = Cardinality(Contents)
=============================================================================
