--------------------------------- MODULE Bytes ---------------------------------
(***************************************************************************)
(* The arithmetic on real bytes that MerkleStore takes as given: where two *)
(* keys first differ, which side a key takes, and whether a key shares the *)
(* first bits of a branch (src/utils/tree_utils.rs, src/constants.rs).     *)
(* The machine walks over two keys byte by byte as calc_min_split_index    *)
(* and check_descendants do; the right answers are read off the bits.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, Bitwise, TLC

CONSTANTS B,       \* the byte values that keys are made of
          N,       \* bytes in a key
          Bug

VARIABLES a, b,    \* two keys
          i,       \* bytes compared so far
          split    \* the first bit at which they differ, as far as is known
vars == <<a, b, i, split>>

\* fast_log_2: spread the highest bit downwards, then multiply by a de Bruijn number
Table == <<0, 5, 1, 6, 4, 3, 2, 7>>
Spread(x) == LET p == x | (x \div 2)
                 q == p | (p \div 4)
             IN q | (q \div 16)
FastLog(x) == Table[(((29 * (IF Bug = "spread" THEN x | (x \div 2) ELSE Spread(x))) % 256) \div 32) + 1]

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Log(x) == Max({e \in 0 .. 7 : Pow2(e) <= x})
ASSUME LogRight == Assert(Bug # "none" \/ \A x \in 1 .. 255 : FastLog(x) = Log(x), "fast_log_2 is wrong")

\* choose_zero
BitOf(k, n) == (k[(n \div 8) + 1] \div Pow2(IF Bug = "order" THEN n % 8 ELSE 7 - (n % 8))) % 2
\* the bits themselves, most significant first
TrueBit(k, n) == (k[(n \div 8) + 1] \div Pow2(7 - (n % 8))) % 2
ASSUME BitsRight == Assert(\A x \in 0 .. 255, n \in 0 .. 7 : BitOf(<<x>>, n) = TrueBit(<<x>>, n), "choose_zero is wrong")

Keys == [1 .. N -> B]
Width == 8 * N
Differ(x, y) == {n \in 0 .. Width - 1 : TrueBit(x, n) # TrueBit(y, n)}
First(x, y) == IF x = y THEN Width - 1 ELSE Min(Differ(x, y))
Smaller(x, y) == \E j \in 1 .. N : x[j] < y[j] /\ \A h \in 1 .. j - 1 : x[h] = y[h]

Init == a \in Keys /\ b \in Keys /\ i = 0 /\ split = Width - 1
Compare ==
  /\ i < N
  /\ IF a[i + 1] = b[i + 1] THEN i' = i + 1 /\ UNCHANGED split
     ELSE i' = N /\ split' = (i * 8) + 7 - FastLog(a[i + 1] ^^ b[i + 1])
  /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Compare]_vars

\* is_descendant: a against a branch with key b that splits at s, from the byte of bit m on
Descendant(s, m) ==
  LET from == IF Bug = "unaligned" THEN m ELSE (m \div 8) * 8
  IN \A j \in from .. s - 1 :
       (j - from) % 8 = 0 =>
         LET y == j \div 8
         IN a[y + 1] = b[y + 1] \/ y * 8 + 7 - FastLog(a[y + 1] ^^ b[y + 1])
                                      >= (IF Bug = "inclusive" THEN s + 1 ELSE s)

\* C05, C11: the split position
SplitRight == i = N => split = First(a, b)
\* and the order of the keys is the order of their bits there, so that a sorted slice has its zeros first
OrderRight == a # b => (Smaller(a, b) <=> BitOf(a, First(a, b)) = 0)
\* C01: nothing differs before m, so whoever differs before s does so from m on
DescendantRight ==
  i = N => \A s \in 0 .. Width - 1 : \A m \in 0 .. First(a, b) :
             Descendant(s, m) <=> (a = b \/ First(a, b) >= s)
=============================================================================
