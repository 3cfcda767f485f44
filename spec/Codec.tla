--------------------------------- MODULE Codec ---------------------------------
(***************************************************************************)
(* C14: how a node becomes bytes and a node again (src/tree, Array in      *)
(* src/lib.rs, with a scheme like bincode's): numbers of a fixed width,    *)
(* the length before whatever has one, a number for the variant.  The      *)
(* writer goes field by field; the reader knows only the bytes.            *)
(*                                                                         *)
(* Bytes are digits to base Base, numbers have two of them.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Base,      \* digits are 0 .. Base - 1
          N,         \* width of keys and hashes
          MaxValue,  \* longest value
          Bug

Counts == {0, 1, Base, Base * Base - 1}
Arrays == {[i \in 1 .. N |-> 0], [i \in 1 .. N |-> i % Base]}
Values == UNION {[1 .. n -> {0, Base - 1}] : n \in 0 .. MaxValue}
Node == {[refs |-> r, kind |-> "b", count |-> c, zero |-> z, one |-> o, split |-> s, key |-> k] :
            r \in Counts, c \in Counts, z \in Arrays, o \in Arrays, s \in Counts, k \in Arrays}
        \union {[refs |-> r, kind |-> "l", key |-> k, data |-> d] : r \in Counts, k \in Arrays, d \in Arrays}
        \union {[refs |-> r, kind |-> "d", value |-> v] : r \in Counts, v \in Values}

VARIABLES node,      \* the node that is stored
          todo,      \* fields still to be written, or to be read
          out,       \* what has been written
          whole,     \* whether all of it was there to be read
          rest,      \* what is left to be read
          got,       \* what has been read
          phase
vars == <<node, todo, out, whole, rest, got, phase>>

Num(n) == <<n % Base, n \div Base>>
Arr(x) == Num(Len(x)) \o x
Fields(n) ==
  CASE n.kind = "b" -> <<Num(n.refs), Num(IF Bug = "one tag" THEN 1 ELSE 0),
                         Num(IF Bug = "narrow count" THEN n.count % Base ELSE n.count),
                         Arr(n.zero), Arr(n.one), Num(n.split), Arr(n.key)>>
    [] n.kind = "l" -> <<Num(n.refs), Num(1), Arr(n.key), Arr(n.data)>>
    [] n.kind = "d" -> <<Num(n.refs), Num(2),
                         IF Bug = "length of one digit" THEN <<Len(n.value) % Base>> \o n.value ELSE Arr(n.value)>>

\* reading: what each variant consists of
Shape(kind) == CASE kind = "b" -> <<"count", "zero", "one", "split", "key">>
                 [] kind = "l" -> <<"key", "data">>
                 [] kind = "d" -> <<"value">>
Swapped(f) == CASE f = "zero" -> "one" [] f = "one" -> "zero" [] OTHER -> f

Init == /\ node \in Node
        /\ out = <<>> /\ todo = Fields(node) /\ whole = TRUE /\ rest = <<>> /\ got = [refs |-> 0] /\ phase = "write"
Write == /\ phase = "write" /\ todo # <<>>
         /\ out' = out \o Head(todo) /\ todo' = Tail(todo)
         /\ UNCHANGED <<node, whole, rest, got, phase>>
\* the bytes are stored and read back, whole or cut off
Stored == /\ phase = "write" /\ todo = <<>>
          /\ phase' = "refs" /\ \E n \in 0 .. Len(out) : rest' = SubSeq(out, 1, n) /\ whole' = (n = Len(out))
          /\ UNCHANGED <<node, out, todo, got>>
Failed == phase' = "error" /\ UNCHANGED <<todo, rest, got>>
ReadRefs == /\ phase = "refs" /\ UNCHANGED <<node, out, whole>>
            /\ IF Len(rest) < 2 THEN Failed
               ELSE /\ got' = [refs |-> rest[1] + Base * rest[2]]
                    /\ rest' = SubSeq(rest, 3, Len(rest)) /\ phase' = "variant" /\ UNCHANGED todo
ReadVariant == /\ phase = "variant" /\ UNCHANGED <<node, out, whole>>
               /\ IF Len(rest) < 2 \/ rest[1] > 2 \/ rest[2] > 0 THEN Failed
                  ELSE LET kind == <<"b", "l", "d">>[rest[1] + 1] IN
                       /\ got' = [refs |-> got.refs, kind |-> kind]
                       /\ todo' = Shape(kind)
                       /\ rest' = SubSeq(rest, 3, Len(rest)) /\ phase' = "fields"
ReadField ==
  /\ phase = "fields" /\ todo # <<>> /\ UNCHANGED <<node, out, whole>>
  /\ LET f == IF Bug = "sides swapped" THEN Swapped(Head(todo)) ELSE Head(todo) IN
     IF f \in {"count", "split"}
     THEN IF Len(rest) < 2 THEN Failed
          ELSE /\ got' = (f :> rest[1] + Base * rest[2]) @@ got
               /\ rest' = SubSeq(rest, 3, Len(rest)) /\ todo' = Tail(todo) /\ UNCHANGED phase
     ELSE LET head == IF Bug = "length of one digit" /\ f = "value" THEN 1 ELSE 2
              n == IF Len(rest) < head THEN 0 ELSE IF head = 1 THEN rest[1] ELSE rest[1] + Base * rest[2]
              takes == IF Bug = "short array" /\ f = "key" /\ n > 0 THEN n - 1 ELSE n
          IN IF Len(rest) < head \/ Len(rest) < head + n \/ (f # "value" /\ n # N) THEN Failed
             ELSE /\ got' = (f :> SubSeq(rest, head + 1, head + takes)) @@ got
                  /\ rest' = SubSeq(rest, head + n + 1, Len(rest)) /\ todo' = Tail(todo) /\ UNCHANGED phase
Done == /\ phase = "fields" /\ todo = <<>>
        /\ phase' = IF rest = <<>> THEN "read" ELSE "error"
        /\ UNCHANGED <<node, out, whole, todo, rest, got>>
Next == Write \/ Stored \/ ReadRefs \/ ReadVariant \/ ReadField \/ Done
Spec == Init /\ [][Next]_vars

\* what is read is what was stored, or nothing is read
RoundTrip == phase = "read" => got = node
\* and it is read, unless it was cut off
Readable == (phase = "error" => ~whole) /\ (phase = "read" => whole)
=============================================================================
