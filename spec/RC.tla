--------------------------------- MODULE RC ---------------------------------
(* Graphs for TLC to check RefCount on *)
EXTENDS RefCount

\* two leaves with their data, a branch above them, and one above that and a leaf
Small == <<{}, {1}, {}, {3}, {2, 4}, {4, 5}>>
\* three leaves, branches that share subtrees and leaves
Wide  == <<{}, {}, {}, {1, 2}, {2, 3}, {3, 4}, {4, 5}>>

\* what is lost to crashes has no bound of its own
Few == \A l \in Loc : refs'[l] <= 3
=============================================================================
