------------------------------ MODULE MerkleStore ------------------------------
(***************************************************************************)
(* How merkle_bit keeps versions: a store of immutable, content-addressed  *)
(* nodes with reference counts.  Structured like the code: one operator    *)
(* per function of src/merkle_bit.rs and src/utils/tree_utils.rs, with     *)
(* the same traversals over sorted slices of keys, the same bytewise       *)
(* search for descendants, the same bottom-up merging, and the same order  *)
(* of storage operations, so that a call can be cut short at any of them.  *)
(*                                                                         *)
(* Hashes are symbolic: the location of a node is the term it hashes (see  *)
(* Trees).                                                                 *)
(*                                                                         *)
(* `Bug' switches in a deliberate mistake, to show that the invariants are *)
(* not vacuous; "none" is the code as it is.                               *)
(***************************************************************************)
EXTENDS Trees, Integers, TLC, SequencesExt

CONSTANTS Key,         \* keys that may be read: naturals, in key order
          InsKey,      \* those that may be inserted
          KeyBits,     \* [Key -> sequence of bits], equal lengths, same order as Key
          ByteLen,     \* bits to a byte
          Val,         \* values: naturals >= 1
          MaxLive,     \* bound on handles
          DepthLimit,  \* the configured depth
          Staged,      \* TRUE: puts take effect at the commit (RocksDB); FALSE: at once
          QueryMax,    \* largest batch read by ReadsExact
          MaxCuts,     \* calls that may be cut short, each at any storage operation
          Requests,    \* length of the longest invalid batch asked for
          Bug

VARIABLES db,      \* the durable store: location |-> node
          live,    \* ghost: bag of live contents
          root,    \* ghost: contents |-> root handed out
          cuts     \* ghost: number of calls cut short
vars == <<db, live, root, cuts>>
dirty == cuts > 0

----------------------------------------------------------------------------
(* Bits and bytes of keys                                                  *)
W == Len(KeyBits[CHOOSE k \in Key : TRUE])
Bit(k, i) == KeyBits[k][i + 1]
Diff == [a \in Key, b \in Key |-> FirstDiff(KeyBits[a], KeyBits[b])]
\* first difference within byte j, or W if byte j is equal
ByteDiff(a, b, j) ==
  LET ds == {i \in j * ByteLen .. j * ByteLen + ByteLen - 1 :
               KeyBits[a][i + 1] # KeyBits[b][i + 1]}
  IN IF ds = {} THEN W ELSE Min(ds)

Sorted(S) == SetToSortSeq(S, <)

----------------------------------------------------------------------------
(* Terms and the canonical tree of some contents are those of Trees.       *)
Canon(m) == CanonOf(m, Diff, KeyBits)
LeafDepth(k, S) == DepthOf(k, S, Diff)

----------------------------------------------------------------------------
(* src/utils/tree_utils.rs                                                 *)

CalcMinSplitIndex(keys, bkey) ==
  LET lo == IF bkey < keys[1] THEN bkey ELSE keys[1]
      hi == IF ~(bkey < keys[1]) /\ bkey > keys[Len(keys)] THEN bkey ELSE keys[Len(keys)]
  IN IF lo = hi THEN W - 1 ELSE Diff[lo, hi]

IsDescendant(k, bsplit, bkey, msplit) ==
  LET first == IF Bug = "unaligned" THEN msplit ELSE (msplit \div ByteLen) * ByteLen
      js == {j \in first .. bsplit - 1 : (j - first) % ByteLen = 0}
  IN \A j \in js : ByteDiff(k, bkey, j \div ByteLen) >= bsplit

\* the first run of descendants in the sorted slice
CheckDescendants(keys, bsplit, bkey, msplit) ==
  LET ok == [i \in 1 .. Len(keys) |-> IsDescendant(keys[i], bsplit, bkey, msplit)]
      ins == {i \in 1 .. Len(keys) : ok[i]}
  IN IF ins = {} THEN <<>>
     ELSE LET s == Min(ins)
              outs == {i \in s .. Len(keys) : ~ok[i]}
              e == IF outs = {} THEN Len(keys) ELSE Min(outs) - 1
          IN SubSeq(keys, s, e)

SplitPairs(keys, bit) ==
  IF keys = <<>> THEN <<(<<>>), (<<>>)>>
  ELSE IF Bit(keys[Len(keys)], bit) = 0 THEN <<keys, <<>>>>
  ELSE IF Bit(keys[1], bit) = 1 THEN <<(<<>>), keys>>
  ELSE LET zs == {i \in 1 .. Len(keys) : Bit(keys[i], bit) = 0}
       IN IF Assert(zs = 1 .. Max(zs), "a slice is not partitioned by its split bit")
          THEN <<SubSeq(keys, 1, Max(zs)), SubSeq(keys, Max(zs) + 1, Len(keys))>>
          ELSE <<(<<>>), (<<>>)>>

----------------------------------------------------------------------------
(* Reading: get, get_one, generate_inclusion_proof                         *)

Bad == [ok |-> FALSE, found |-> {}]
\* a node that the store fails to deliver
Broken == [refs |-> -1, count |-> 0, split |-> 0, key |-> 0]
Fails(s, loc) == loc \in DOMAIN s /\ s[loc].refs < 0

RECURSIVE GetRec(_, _, _, _, _)
GetRec(s, loc, keys, depth, all) ==
  IF depth > DepthLimit THEN Bad
  ELSE IF Fails(s, loc) THEN IF Bug = "swallow" THEN [ok |-> TRUE, found |-> {}] ELSE Bad
  ELSE LET n == s[loc] IN
  CASE Kind(loc) = "b" ->
         LET ms == CalcMinSplitIndex(keys, n.key)
             ds == CheckDescendants(keys, n.split, n.key, ms)
         IN IF ds = <<>> THEN [ok |-> TRUE, found |-> {}]
            ELSE LET p == SplitPairs(ds, n.split)
                     z == IF p[1] = <<>> \/ loc[2] \notin DOMAIN s
                          THEN [ok |-> TRUE, found |-> {}]
                          ELSE GetRec(s, loc[2], p[1], depth + 1, all)
                     o == IF p[2] = <<>> \/ loc[3] \notin DOMAIN s
                          THEN [ok |-> TRUE, found |-> {}]
                          ELSE GetRec(s, loc[3], p[2], depth + 1, all)
                 IN [ok |-> z.ok /\ o.ok, found |-> z.found \union o.found]
    [] Kind(loc) = "l" ->
         IF D(loc[2], loc[3]) \notin DOMAIN s \/ Fails(s, D(loc[2], loc[3])) THEN Bad
         ELSE [ok |-> TRUE,
               found |-> IF loc[2] \in all THEN {<<loc[2], loc[3]>>} ELSE {}]
    [] OTHER -> Bad

\* ok, and the set of <<key, value>> found; every other requested key is absent
Get(s, r, Q) ==
  IF Q = {} \/ r \notin DOMAIN s THEN [ok |-> TRUE, found |-> {}]
  ELSE GetRec(s, r, Sorted(Q), 0, Q)

RECURSIVE Descend(_, _, _, _)
\* the path of get_one / generate_inclusion_proof: [st, val, proof]
Descend(s, loc, k, depth) ==
  IF depth > (IF Bug = "shallow" THEN DepthLimit - 1 ELSE DepthLimit)
    THEN [st |-> "error", proof |-> <<>>]
  ELSE IF loc \notin DOMAIN s THEN [st |-> "none", proof |-> <<>>]
  ELSE IF Fails(s, loc) THEN [st |-> "error", proof |-> <<>>]
  ELSE LET n == s[loc] IN
  CASE Kind(loc) = "b" ->
         LET ms == CalcMinSplitIndex(<<k>>, n.key)
         IN IF CheckDescendants(<<k>>, n.split, n.key, ms) = <<>>
            THEN [st |-> "none", proof |-> <<>>]
            ELSE LET zero == Bit(k, n.split) = 0
                     d == Descend(s, IF zero THEN loc[2] ELSE loc[3], k, depth + 1)
                 IN [st |-> d.st,
                     val |-> IF d.st = "some" THEN d.val ELSE 0,
                     proof |-> Append(d.proof, IF zero THEN <<loc[3], TRUE>> ELSE <<loc[2], FALSE>>)]
    [] Kind(loc) = "l" ->
         IF loc[2] # k THEN [st |-> "none", proof |-> <<>>]
         ELSE IF D(loc[2], loc[3]) \notin DOMAIN s \/ Fails(s, D(loc[2], loc[3])) THEN [st |-> "error", proof |-> <<>>]
         ELSE [st |-> "some", val |-> loc[3],
               proof |-> <<<<D(loc[2], loc[3]), FALSE>>, <<loc, FALSE>>>>]
    [] OTHER -> [st |-> "error", proof |-> <<>>]

----------------------------------------------------------------------------
(* Storage operations.  `left' is the number of operations that still take *)
(* effect; then the call is cut and every later operation does nothing.    *)
Begin(s, left) == [db |-> s, st |-> <<>>, left |-> left, cut |-> FALSE, ops |-> 0]
Step(e) == [e EXCEPT !.left = @ - 1, !.ops = @ + 1]
Put(e, loc, n) ==
  IF e.cut THEN e ELSE IF e.left = 0 THEN [e EXCEPT !.cut = TRUE]
  ELSE IF Staged THEN [Step(e) EXCEPT !.st = (loc :> n) @@ @]
  ELSE [Step(e) EXCEPT !.db = (loc :> n) @@ @]
Del(e, loc) ==
  IF e.cut THEN e ELSE IF e.left = 0 THEN [e EXCEPT !.cut = TRUE]
  ELSE [Step(e) EXCEPT !.db = [x \in DOMAIN @ \ {loc} |-> @[x]]]
Commit(e) ==
  IF e.cut THEN e ELSE IF e.left = 0 THEN [e EXCEPT !.cut = TRUE]
  ELSE [Step(e) EXCEPT !.db = e.st @@ @, !.st = <<>>]
Unlimited == 1000000

BranchNode(refs, count, split, key) == [refs |-> refs, count |-> count, split |-> split, key |-> key]
PlainNode(refs) == [refs |-> refs, count |-> 0, split |-> 0, key |-> 0]
Refs(e, loc) == IF loc \in DOMAIN e.db THEN e.db[loc].refs ELSE 0

----------------------------------------------------------------------------
(* insert                                                                  *)

TreeRef(key, loc, n) == [key |-> key, loc |-> loc, n |-> n, count |-> 1]
RefOf(s, loc) == CASE Kind(loc) = "b" -> TreeRef(s[loc].key, loc, IF Bug = "reusecount" THEN 1 ELSE s[loc].count)
                   [] OTHER -> TreeRef(loc[2], loc, 1)

\* traverse_tree: the nodes the new tree shares with the previous one
RECURSIVE Traverse(_, _, _, _, _)
Traverse(s, loc, keys, depth, all) ==
  IF depth > DepthLimit THEN [ok |-> FALSE, refs |-> <<>>]
  ELSE LET n == s[loc] IN
  CASE Kind(loc) = "l" ->
         [ok |-> TRUE, refs |-> IF loc[2] \in all THEN <<>> ELSE <<TreeRef(loc[2], loc, 1)>>]
    [] Kind(loc) = "b" ->
         LET ms == CalcMinSplitIndex(keys, n.key)
             ds == IF ms < n.split THEN CheckDescendants(keys, n.split, n.key, ms) ELSE keys
         IN IF ds = <<>> THEN [ok |-> TRUE, refs |-> <<RefOf(s, loc)>>]
            ELSE LET p == SplitPairs(ds, n.split)
                     Side(c, ks) == IF c \notin DOMAIN s THEN [ok |-> FALSE, refs |-> <<>>]
                                    ELSE IF ks = <<>> THEN [ok |-> TRUE, refs |-> <<RefOf(s, c)>>]
                                    ELSE Traverse(s, c, ks, depth + 1, all)
                     o == Side(loc[3], p[2])
                     z == Side(loc[2], p[1])
                 IN [ok |-> z.ok /\ o.ok, refs |-> o.refs \o z.refs]
    [] OTHER -> [ok |-> FALSE, refs |-> <<>>]

AddReference(e, loc) == Put(e, loc, [e.db[loc] EXCEPT !.refs = @ + 1])
Release(e, loc) == Put(e, loc, [e.db[loc] EXCEPT !.refs = IF @ = 0 THEN 0 ELSE @ - 1])

InsertLeaf(e, k, v) ==
  LET l == L(k, v)
      d == D(k, v)
      dataref == PlainNode(Refs(e, d) + 1)
      leafref == PlainNode(Refs(e, l) + 1)
  IN IF l \in DOMAIN e.db
     THEN IF Bug = "datarefs" THEN Put(Put(e, d, dataref), l, leafref) ELSE Put(e, l, leafref)
     ELSE IF Bug = "leaffirst" THEN Put(Put(e, l, leafref), d, dataref)
     ELSE Put(Put(e, d, dataref), l, leafref)

\* merge_nodes for one pair of neighbours; x = [e, t] with t the sequence of tree refs
MergeOne(x, item) ==
  LET split == item[1]
      a == item[2]
      nx == item[3]
      t == x.t
      Look[c \in 1 .. Len(t)] == IF t[a + c].count > c THEN Look[t[a + c].count] ELSE a + c
      p == IF t[nx].count > 1 THEN Look[t[nx].count] ELSE nx
      b == Br(t[a].loc, t[p].loc)
      n == t[a].n + t[p].n
      known == b \in DOMAIN x.e.db
      released == IF known /\ Bug # "norelease" THEN Release(Release(x.e, t[a].loc), t[p].loc) ELSE x.e
      refs == IF known /\ Bug # "overwrite" THEN x.e.db[b].refs + 1 ELSE 1
      e2 == Put(released, b, BranchNode(refs, n, split, t[a].key))
      merged == [key |-> t[a].key, loc |-> b, n |-> n, count |-> t[p].count + t[a].count]
  IN [e |-> e2, t |-> [t EXCEPT ![p] = merged, ![a] = merged], top |-> b]

MergeLevel(x, items) ==
  LET y == FoldLeft(LAMBDA acc, item : MergeOne(acc, item), x, items)
  IN [y EXCEPT !.e = Commit(@)]

CreateTree(e, trefs) ==
  IF Len(trefs) = 1 THEN [e |-> Commit(e), t |-> trefs, top |-> trefs[1].loc]
  ELSE LET t == SortSeq(trefs, LAMBDA x, y : x.key < y.key)
           splitAt == [i \in 1 .. Len(t) - 1 |-> Diff[t[i].key, t[i + 1].key]]
           levels == Reverse(Sorted({splitAt[i] : i \in 1 .. Len(t) - 1}))
           items(s) == LET is == Sorted({i \in 1 .. Len(t) - 1 : splitAt[i] = s})
                       IN [j \in 1 .. Len(is) |-> <<s, is[j], is[j] + 1>>]
           e1 == IF Bug = "latecommit" THEN e ELSE Commit(e)
       IN FoldLeft(LAMBDA acc, s : MergeLevel(acc, items(s)), [e |-> e1, t |-> t, top |-> <<>>], levels)

\* [ok, e, top]: rejected before anything is written, or the new root
InsertOp(s, base, upd, left) ==
  LET keys == Sorted(DOMAIN upd)
      tr == IF base = <<>> THEN [ok |-> TRUE, refs |-> <<>>]
            ELSE IF base \notin DOMAIN s THEN [ok |-> FALSE, refs |-> <<>>]
            ELSE Traverse(s, base, keys, 0, DOMAIN upd)
      e0 == Begin(s, left)
  IN IF ~tr.ok
     THEN [ok |-> FALSE, top |-> <<>>,
           e |-> IF Bug = "writefirst"
                 THEN FoldLeft(LAMBDA e, k : InsertLeaf(e, k, upd[k]), e0, keys) ELSE e0]
     ELSE LET e1 == FoldLeft(LAMBDA e, r : AddReference(e, r.loc), e0, tr.refs)
              e2 == FoldLeft(LAMBDA e, k : InsertLeaf(e, k, upd[k]), e1, keys)
              new == [i \in 1 .. Len(keys) |-> TreeRef(keys[i], L(keys[i], upd[keys[i]]), 1)]
              c == CreateTree(e2, new \o tr.refs)
          IN [ok |-> ~c.e.cut, top |-> c.top, e |-> c.e]

\* What `insert' is asked: two lists and a base; the value NoCode cannot be encoded.  Everything
\* that can be refused is refused before anything is written.
NoCode == 0
Repeats(ks) == \E i, j \in 1 .. Len(ks) : i # j /\ ks[i] = ks[j]
MapOf(ks, vs) == [k \in ToSet(ks) |-> vs[Max({i \in 1 .. Len(ks) : ks[i] = k})]]
Invalid(ks, vs) ==
  \/ Len(ks) # Len(vs)
  \/ ks = <<>>
  \/ Bug # "encodelate" /\ \E i \in 1 .. Len(vs) : vs[i] = NoCode
  \/ Bug # "repeatlate" /\ Repeats(ks)
Request(s, base, ks, vs, left) ==
  LET refused(e) == [ok |-> FALSE, top |-> <<>>, e |-> e]
      sorted == SortSeq(ks, <)
      m == MapOf(ks, vs)
      bad == {i \in 1 .. Len(ks) : m[sorted[i]] = NoCode}
      good == IF bad = {} THEN sorted ELSE SubSeq(sorted, 1, Min(bad) - 1)
      e0 == Begin(s, left)
  IN IF Invalid(ks, vs) \/ (base # <<>> /\ base \notin DOMAIN s) THEN refused(e0)
     ELSE IF bad # {} \/ Repeats(ks)
     \* the mistakes: found out while the leaves are written, or when the tree is built
     THEN refused(FoldLeft(LAMBDA e, k : InsertLeaf(e, k, m[k]), e0, good))
     ELSE InsertOp(s, base, m, left)

----------------------------------------------------------------------------
(* remove: breadth first, parents are deleted before their children lose a *)
(* reference                                                               *)
RECURSIVE RemoveQueue(_, _)
RemoveQueue(e, q) ==
  IF q = <<>> \/ e.cut THEN e
  ELSE LET loc == Head(q) IN
       IF loc \notin DOMAIN e.db THEN RemoveQueue(e, Tail(q))
       ELSE LET n == e.db[loc]
                cs == CASE Kind(loc) = "b" -> <<loc[2], loc[3]>>
                        [] Kind(loc) = "l" -> <<D(loc[2], loc[3])>>
                        [] OTHER -> <<>>
            IN IF n.refs <= 1
               THEN IF Bug = "childfirst"
                    THEN Del(RemoveQueue(e, cs \o Tail(q)), loc)
                    ELSE RemoveQueue(Del(e, loc), Tail(q) \o cs)
               ELSE RemoveQueue(Put(e, loc, [n EXCEPT !.refs = @ - 1]), Tail(q))
RemoveOp(s, r, left) == Commit(RemoveQueue(Begin(s, left), <<r>>))

----------------------------------------------------------------------------
(* The system                                                              *)
Maps == UNION {[S -> Val] : S \in (SUBSET InsKey) \ {{}}}
AddHandle(b, m) == IF m \in DOMAIN b THEN [b EXCEPT ![m] = @ + 1] ELSE (m :> 1) @@ b
DropHandle(b, m) == IF b[m] > 1 THEN [b EXCEPT ![m] = @ - 1] ELSE [x \in DOMAIN b \ {m} |-> b[x]]
Handles == FoldSet(LAMBDA m, n : n + live[m], 0, DOMAIN live)
RootOf(base) == IF base = <<>> THEN <<>> ELSE root[base]

Init == db = <<>> /\ live = <<>> /\ root = <<>> /\ cuts = 0

InsertRoot(base, upd) ==
  /\ base = <<>> \/ base \in DOMAIN live
  /\ Handles < MaxLive
  /\ LET r == InsertOp(db, RootOf(base), upd, Unlimited)
         m == upd @@ base
     IN /\ db' = r.e.db
        /\ IF r.ok THEN /\ live' = AddHandle(live, m)
                        /\ root' = (m :> r.top) @@ root
                   ELSE UNCHANGED <<live, root>>
  /\ UNCHANGED cuts

\* a request that must be refused; <<"n">> is no root
InsertInvalid(base, ks, vs) ==
  /\ base \in {<<>>, <<"n">>} \union DOMAIN live
  /\ LET r == Request(db, IF base = <<"n">> THEN base ELSE RootOf(base), ks, vs, Unlimited)
     IN /\ Assert(~r.ok, "an invalid request is granted")
        /\ db' = r.e.db
  /\ UNCHANGED <<live, root, cuts>>

RemoveRoot(m) ==
  /\ m \in DOMAIN live
  /\ db' = RemoveOp(db, root[m], Unlimited).db
  /\ live' = DropHandle(live, m)
  /\ root' = [x \in DOMAIN live' |-> root[x]]
  /\ UNCHANGED cuts

InsertCut(base, upd, left) ==
  /\ base = <<>> \/ base \in DOMAIN live
  /\ Handles < MaxLive
  /\ LET r == InsertOp(db, RootOf(base), upd, left)
     IN /\ r.e.cut
        /\ db' = r.e.db
  /\ cuts' = cuts + 1
  /\ UNCHANGED <<live, root>>

RemoveCut(m, left) ==
  /\ m \in DOMAIN live
  /\ LET e == RemoveOp(db, root[m], left)
     IN /\ e.cut
        /\ db' = e.db
  /\ live' = DropHandle(live, m)
  /\ root' = [x \in DOMAIN live' |-> root[x]]
  /\ cuts' = cuts + 1

Lists(S) == UNION {[1 .. n -> S] : n \in 0 .. Requests}
MaxOps == 6 * Cardinality(InsKey) + 6
Next ==
  \/ \E base \in {<<>>} \union DOMAIN live, upd \in Maps : InsertRoot(base, upd)
  \/ \E m \in DOMAIN live : RemoveRoot(m)
  \/ Requests > 0 /\ \E base \in {<<>>, <<"n">>} \union DOMAIN live, ks \in Lists(InsKey), vs \in Lists(Val \union {NoCode}) :
       (base = <<"n">> \/ Len(ks) # Len(vs) \/ ks = <<>> \/ NoCode \in ToSet(vs) \/ Repeats(ks)) /\ InsertInvalid(base, ks, vs)
  \/ Requests > 0 /\ db' = RemoveOp(db, <<"n">>, Unlimited).db /\ UNCHANGED <<live, root, cuts>>
  \/ cuts < MaxCuts /\ \E base \in {<<>>} \union DOMAIN live, upd \in Maps, n \in 0 .. MaxOps : InsertCut(base, upd, n)
  \/ cuts < MaxCuts /\ \E m \in DOMAIN live, n \in 0 .. MaxOps : RemoveCut(m, n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties                                                              *)

Deep(m) == {k \in DOMAIN m : LeafDepth(k, DOMAIN m) > DepthLimit}

\* C02, C03, C12: everything a live root needs is stored
LiveStored == \A m \in DOMAIN live : Nodes(root[m]) \subseteq DOMAIN db
\* C04: and nothing else
StoreExact == ~dirty => DOMAIN db = UNION {Nodes(root[m]) : m \in DOMAIN live}
\* what makes it so: references count parents and handles
Parents(t) == Cardinality({p \in DOMAIN db : t \in Children(p)})
HandlesOf(t) == FoldSet(LAMBDA m, n : n + (IF root[m] = t THEN live[m] ELSE 0), 0, DOMAIN live)
RefsExact == ~dirty => \A t \in DOMAIN db : db[t].refs = Parents(t) + HandlesOf(t)
RefsEnough == \A t \in DOMAIN db : db[t].refs >= Parents(t) + HandlesOf(t)
\* no stored node lacks a child, even after a cut
Closed == \A t \in DOMAIN db : Children(t) \subseteq DOMAIN db
\* C05, C06: the root is the canonical tree of the contents
Canonical == \A m \in DOMAIN live : root[m] = Canon(m)
\* C11
WellFormed ==
  \A t \in DOMAIN db : Kind(t) = "b" =>
    LET zs == {x[1] : x \in LeavesOf(t[2])}
        os == {x[1] : x \in LeavesOf(t[3])}
        S == zs \union os
        s == Diff[Min(S), Max(S)]
    IN /\ db[t].split = s
       /\ \A k \in zs : Bit(k, s) = 0
       /\ \A k \in os : Bit(k, s) = 1
       /\ db[t].count = Cardinality(S)
       /\ \A k \in S : Diff[k, db[t].key] >= s
\* C01, C15 (batch reads): queries of up to QueryMax keys, and all keys at once
Queries == UNION {kSubset(n, Key) : n \in 0 .. QueryMax} \union {Key}
ReadsExact ==
  \A m \in DOMAIN live : \A Q \in Queries :
    LET g == Get(db, root[m], Q)
    IN IF Deep(m) = {} THEN g.ok /\ g.found = {<<k, m[k]>> : k \in Q \intersect DOMAIN m}
       ELSE g.ok => g.found = {<<k, m[k]>> : k \in Q \intersect DOMAIN m}
\* C09, C15 (single reads), C07 (proofs)
SinglesExact ==
  \A m \in DOMAIN live : \A k \in Key :
    LET d == Descend(db, root[m], k, 0) IN
    IF k \in Deep(m) THEN d.st = "error" /\ ~Get(db, root[m], {k}).ok
    ELSE IF k \in DOMAIN m
    THEN d.st = "some" /\ d.val = m[k] /\ Verify(root[m], k, m[k], d.proof)
    ELSE d.st # "some" /\ (Deep(m) = {} => d.st = "none")

\* A tree found inside another: a pair of it, or all the pairs below one of its branches
Inside(m, M) ==
  /\ DOMAIN m \subseteq DOMAIN M
  /\ \A k \in DOMAIN m : m[k] = M[k]
  /\ \/ Cardinality(DOMAIN m) = 1
     \/ LET lo == Min(DOMAIN m)
            d == Diff[lo, Max(DOMAIN m)]
        IN \A k \in DOMAIN M \ DOMAIN m : Diff[lo, k] < d
\* C04, C07, C10: any root that was ever handed out, or never, can be read exactly as long as some live
\* version contains its tree; otherwise every key is absent and has no proof
FormerExact ==
  ~dirty => \A m \in Maps :
    LET r == Canon(m)
        held == \E M \in DOMAIN live : Inside(m, M)
        found == IF held THEN m ELSE <<>>
    IN Deep(m) = {} =>
         /\ \A Q \in Queries : Get(db, r, Q) = [ok |-> TRUE, found |-> {<<k, found[k]>> : k \in Q \intersect DOMAIN found}]
         /\ \A k \in InsKey : Descend(db, r, k, 0).st = IF k \in DOMAIN found THEN "some" ELSE "none"

\* C15: exactly how deep a call goes.  Number of branches that the way of k through the tree over
\* S passes: it ends at its leaf or at the first branch whose common prefix k does not have
RECURSIVE Passes(_, _)
Passes(k, S) ==
  IF Cardinality(S) = 1 THEN 0
  ELSE LET s == Diff[Min(S), Max(S)]
       IN IF k # Min(S) /\ Diff[k, Min(S)] < s THEN 0
          ELSE 1 + Passes(k, {x \in S : Bit(x, s) = Bit(k, s)})
DepthExact ==
  \A m \in DOMAIN live :
    LET far == {k \in Key : Passes(k, DOMAIN m) > DepthLimit} IN
    /\ \A k \in Key : (Descend(db, root[m], k, 0).st = "error") <=> k \in far
    /\ \A Q \in Queries : Get(db, root[m], Q).ok <=> Q \intersect far = {}
    /\ \A S \in (SUBSET InsKey) \ {{}} : Traverse(db, root[m], Sorted(S), 0, S).ok <=> S \intersect far = {}

\* C09: a batch, or its parts one after the other, end in the same root and the same store
SplitSame ==
  \A base \in {<<>>} \union DOMAIN live, upd \in Maps :
    LET whole == InsertOp(db, RootOf(base), upd, Unlimited) IN
    \A A \in (SUBSET DOMAIN upd) \ {{}, DOMAIN upd} :
      LET first == InsertOp(db, RootOf(base), [k \in A |-> upd[k]], Unlimited)
          rest == InsertOp(first.e.db, first.top, [k \in DOMAIN upd \ A |-> upd[k]], Unlimited)
          end == RemoveOp(rest.e.db, first.top, Unlimited)
      IN whole.ok /\ first.ok /\ rest.ok => rest.top = whole.top /\ end.db = whole.e.db

\* C12: a read during which the store fails to deliver a node gives no wrong answer
FailsSafe ==
  \A m \in DOMAIN live : \A t \in Nodes(root[m]) \intersect DOMAIN db :
    LET s == [db EXCEPT ![t] = Broken] IN
    /\ \A Q \in Queries : LET g == Get(s, root[m], Q) IN g.ok => g.found = {<<k, m[k]>> : k \in Q \intersect DOMAIN m}
    /\ \A k \in Key : LET d == Descend(s, root[m], k, 0) IN
         /\ d.st = "none" => k \notin DOMAIN m
         /\ d.st = "some" => k \in DOMAIN m /\ d.val = m[k] /\ Verify(root[m], k, m[k], d.proof)

\* C10: a refused insert (base below the depth limit) leaves no trace
RefusedInert == [][cuts' = cuts /\ (\A m \in DOMAIN live' : m \in DOMAIN live /\ live'[m] = live[m])
                     => (live' = live => db' = db)]_vars

----------------------------------------------------------------------------
(* Refinement: the store implements VersionedMap                           *)
VM == INSTANCE VersionedMap WITH Key <- InsKey, Export <- FALSE,
        act <- [op |-> "hidden"], Crashes <- (MaxCuts > 0)
RefinesTypes == VM!TypeOK
AbstractNext ==
  \/ \E base \in {<<>>} \union DOMAIN live, upd \in Maps :
       \/ live' = VM!AddHandle(live, VM!Overlay(base, upd)) /\ dirty' = dirty
       \/ live' = live /\ dirty' = TRUE
  \/ \E m \in DOMAIN live : live' = VM!DropHandle(live, m) /\ dirty' \in {dirty, TRUE}
  \/ (live' = live /\ dirty' = dirty)
Refines == [][AbstractNext]_<<live, cuts>>
=============================================================================
