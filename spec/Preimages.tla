------------------------------- MODULE Preimages -------------------------------
(***************************************************************************)
(* What the hash function is given, byte for byte, as insert_leaves,       *)
(* merge_nodes and verify_inclusion_proof feed it: update by update, into  *)
(* a buffer that knows nothing of where one part ends and the next begins. *)
(*                                                                         *)
(*   data    "d"  key   value                                              *)
(*   leaf    "l"  key   hash of the data                                   *)
(*   branch  "b"  hash of the zero side   hash of the one side             *)
(*                                                                         *)
(* Trees takes a location to BE the node.  That is right if two nodes that *)
(* differ never give the hash function the same bytes (C02, C06, C08):     *)
(* keys and hashes have one width, but they are chosen by others, values   *)
(* of any length are too, so any of them may look like anything else.      *)
(*                                                                         *)
(* `Bug' is a deliberate mistake in what is hashed.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Byte,      \* the bytes there are; TagD, TagL, TagB among them
          TagD, TagL, TagB,
          N,         \* width of keys and hashes
          MaxValue,  \* longest value
          Bug

VARIABLES node,      \* the node that is being hashed: <<kind, first, second>>
          todo,      \* updates still to come
          buffer     \* what the hash function has seen
vars == <<node, todo, buffer>>

Str(n) == [1 .. n -> Byte]
Values == UNION {Str(n) : n \in 0 .. MaxValue}
\* a leaf is hashed by its key and the location of its data, a branch by two locations; any string
\* of the right width is a location that could turn up
Nodes == {<<"d", k, v>> : k \in Str(N), v \in Values}
         \union {<<"l", k, h>> : k \in Str(N), h \in Str(N)}
         \union {<<"b", x, y>> : x \in Str(N), y \in Str(N)}

Less(a, b) == \E i \in 1 .. N : a[i] < b[i] /\ \A j \in 1 .. i - 1 : a[j] = b[j]
Tag(kind) == CASE kind = "d" -> IF Bug = "no data tag" THEN <<>> ELSE <<TagD>>
               [] kind = "l" -> IF Bug = "no leaf tag" THEN <<>>
                                ELSE IF Bug = "one tag for both" THEN <<TagD>> ELSE <<TagL>>
               [] kind = "b" -> IF Bug = "no branch tag" THEN <<>> ELSE <<TagB>>
Updates(n) ==
  CASE n[1] = "d" /\ Bug = "no key in data" -> <<Tag("d"), n[3]>>
    [] n[1] = "l" /\ Bug = "no key in leaf" -> <<Tag("l"), n[3]>>
    [] n[1] = "b" /\ Bug = "sides in order" ->
         IF Less(n[2], n[3]) THEN <<Tag("b"), n[2], n[3]>> ELSE <<Tag("b"), n[3], n[2]>>
    [] n[1] = "d" /\ Bug = "key without its last byte" -> <<Tag("d"), SubSeq(n[2], 1, N - 1), n[3]>>
    [] n[1] = "d" /\ Bug = "first bytes of the value" ->
         <<Tag("d"), n[2], SubSeq(n[3], 1, IF Len(n[3]) < MaxValue THEN Len(n[3]) ELSE MaxValue - 1)>>
    [] OTHER -> <<Tag(n[1]), n[2], n[3]>>

Init == node \in Nodes /\ todo = Updates(node) /\ buffer = <<>>
Update == /\ todo # <<>>
          /\ buffer' = buffer \o Head(todo)
          /\ todo' = Tail(todo)
          /\ UNCHANGED node
Spec == Init /\ [][Update]_vars

\* what a node gives to the hash function, all in all
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
Hashed(n) == Joined(Updates(n))

\* nothing is lost on the way
Complete == todo = <<>> => buffer = Hashed(node)

\* the node can be read back from what was hashed, so no other node gives the same bytes
NodeOf(b) ==
  CASE b[1] = TagD -> <<"d", SubSeq(b, 2, N + 1), SubSeq(b, N + 2, Len(b))>>
    [] b[1] = TagL -> <<"l", SubSeq(b, 2, N + 1), SubSeq(b, N + 2, Len(b))>>
    [] b[1] = TagB -> <<"b", SubSeq(b, 2, N + 1), SubSeq(b, N + 2, Len(b))>>
    [] OTHER -> <<"?", <<>>, <<>>>>
ReadBack == todo = <<>> /\ Bug = "none" => NodeOf(buffer) = node
\* the same without saying how: as many different inputs as nodes
Distinct == Cardinality({Hashed(n) : n \in Nodes}) = Cardinality(Nodes)
ASSUME DistinctHashes == Assert(Distinct, "two nodes give the hash function the same bytes")
=============================================================================
