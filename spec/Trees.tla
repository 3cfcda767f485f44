--------------------------------- MODULE Trees ---------------------------------
(***************************************************************************)
(* The trees of merkle_bit as symbolic terms, shared by the other modules. *)
(* The location of a node is the term that its hash stands for, so equal   *)
(* locations mean equal contents: hashes are assumed free of collisions.   *)
(*   data   <<"d", key, value>>                                            *)
(*   leaf   <<"l", key, value>>      (hash of the key and the data hash)   *)
(*   branch <<"b", zero, one>>                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt

D(k, v)  == <<"d", k, v>>
L(k, v)  == <<"l", k, v>>
Br(z, o) == <<"b", z, o>>
Kind(t)  == t[1]
Children(t) == CASE Kind(t) = "b" -> {t[2], t[3]}
                 [] Kind(t) = "l" -> {D(t[2], t[3])}
                 [] OTHER -> {}
RECURSIVE Nodes(_)
Nodes(t) == {t} \union UNION {Nodes(c) : c \in Children(t)}
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF Kind(t) = "b" THEN LeavesOf(t[2]) \union LeavesOf(t[3])
               ELSE IF Kind(t) = "l" THEN {<<t[2], t[3]>>} ELSE {}

\* the first position at which two different bit strings of equal length differ, from 0
RECURSIVE FirstDiffFrom(_, _, _)
FirstDiffFrom(a, b, i) == IF i > Len(a) THEN Len(a)
                          ELSE IF a[i] # b[i] THEN i - 1 ELSE FirstDiffFrom(a, b, i + 1)
FirstDiff(a, b) == FirstDiffFrom(a, b, 1)

\* The one tree that stands for the contents m; keys are naturals in the order of their bits,
\* diff[a, b] the first bit at which they differ and bits[a] the bits of a
RECURSIVE CanonOf(_, _, _)
CanonOf(m, diff, bits) ==
  LET S == DOMAIN m IN
  IF Cardinality(S) = 1 THEN LET k == CHOOSE k \in S : TRUE IN L(k, m[k])
  ELSE LET s == diff[Min(S), Max(S)]
           z == {k \in S : bits[k][s + 1] = 0}
       IN Br(CanonOf([k \in z |-> m[k]], diff, bits), CanonOf([k \in S \ z |-> m[k]], diff, bits))

\* number of branches above the leaf of k in the tree over the keys S
DepthOf(k, S, diff) == Cardinality({diff[k, x] : x \in S \ {k}})

\* verify_inclusion_proof: recompute the root from the claim; a proof is the data's and the
\* leaf's location and then the siblings upwards, each with TRUE if it is on the one side
RECURSIVE Fold(_, _)
Fold(cur, p) == IF p = <<>> THEN cur
                ELSE Fold(IF Head(p)[2] THEN Br(cur, Head(p)[1]) ELSE Br(Head(p)[1], cur), Tail(p))
Verify(r, k, v, p) ==
  /\ Len(p) >= 2
  /\ p[1][1] = D(k, v)
  /\ p[2][1] = L(k, v)
  /\ Fold(L(k, v), SubSeq(p, 3, Len(p))) = r
=============================================================================
