------------------------------ MODULE MerkleTrace ------------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation: every recorded call  *)
(* is taken as the step of VersionedMap that its arguments ask for, and    *)
(* every recorded answer and every dump of the store is compared with what *)
(* the state of the specification requires.                                *)
(*                                                                         *)
(* The trace file has one JSON record to a line; "open" starts a history   *)
(* with an empty store.  Keys, values and locations are numbered by the    *)
(* recorder (keys in their order, 0 for a key that is no key of the        *)
(* history); their bits are in the "open" record.  Locations are hashes:   *)
(* what they stand for is found out from the dumps.                        *)
(*                                                                         *)
(* A difference is printed with its class and the line; the step is taken  *)
(* all the same, so that one difference does not hide another.             *)
(***************************************************************************)
EXTENDS Trees, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,       \* lines read
          live,    \* bag of live contents, as in VersionedMap
          dirty,   \* a call was cut
          act,
          root,    \* contents |-> location
          term,    \* location |-> term, for the locations seen in dumps
          store,   \* the last dump: location |-> node
          inert,   \* only reads and refused requests since the last dump
          bits, diff, limit
tvars == <<i, live, dirty, act, root, term, store, inert, bits, diff, limit>>

VM == INSTANCE VersionedMap WITH Key <- {}, Val <- {}, MaxLive <- 1000000,
                                 Crashes <- TRUE, Export <- FALSE

Ev == Trace[i + 1]
\* a sequence of <<key, value>> as a function
MapOf(ps) == [k \in {ps[j][1] : j \in 1 .. Len(ps)} |-> ps[CHOOSE j \in 1 .. Len(ps) : ps[j][1] = k][2]]

Differs(class) == PrintT(ToString(<<"DIFFERENCE", class, i + 1, dirty>>))
Check(class, ok) == IF ok THEN TRUE ELSE Differs(class)

\* the contents a location stands for
At(loc) == {m \in DOMAIN live : m \in DOMAIN root /\ root[m] = loc}
ContentsOf(loc) == CHOOSE m \in At(loc) : TRUE
Known(loc) == Cardinality(At(loc)) = 1

Deep(m) == {k \in DOMAIN m : DepthOf(k, DOMAIN m, diff) > limit}

TermAt(loc) == IF loc \in DOMAIN term THEN term[loc] ELSE <<"?", loc>>
ProofTerms(p) == [j \in 1 .. Len(p) |-> <<TermAt(p[j][1]), p[j][2]>>]

----------------------------------------------------------------------------
(* Dumps of the store                                                      *)
NodesOf(ns) == [l \in {ns[j][1] : j \in 1 .. Len(ns)} |-> ns[CHOOSE j \in 1 .. Len(ns) : ns[j][1] = l]]

RECURSIVE Build(_, _, _)
\* the term of the tree below a location in dump s; data nodes hold a value and leaves the key
Build(s, loc, fuel) ==
  IF loc \notin DOMAIN s THEN <<"?", loc>>
  ELSE IF fuel = 0 THEN <<"cycle", loc>>
  ELSE LET n == s[loc] IN
  CASE n[2] = "b" -> Br(Build(s, n[3], fuel - 1), Build(s, n[4], fuel - 1))
    [] n[2] = "l" -> IF n[4] \in DOMAIN s /\ s[n[4]][2] = "d" THEN L(n[3], s[n[4]][3]) ELSE <<"?", n[4]>>
    [] OTHER -> <<"?", loc>>
RECURSIVE Broken(_)
Broken(t) == CASE Kind(t) = "b" -> Broken(t[2]) \/ Broken(t[3])
               [] Kind(t) = "l" -> FALSE
               [] OTHER -> TRUE
Fuel == Len(bits[1]) + 2

\* the locations reachable from a location in dump s
RECURSIVE Reach(_, _, _)
Reach(s, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET loc == CHOOSE x \in frontier : TRUE
           n == IF loc \in DOMAIN s THEN s[loc] ELSE <<loc, "?">>
           cs == CASE n[2] = "b" -> {n[3], n[4]} [] n[2] = "l" -> {n[4]} [] OTHER -> {}
       IN Reach(s, (frontier \union cs) \ (seen \union {loc}), seen \union {loc})

\* C11: what a branch says about itself
\* (tm gives the term of each location of the dump)
BranchRight(tm, n) ==
  LET z == IF n[3] \in DOMAIN tm THEN tm[n[3]] ELSE <<"?", n[3]>>
      o == IF n[4] \in DOMAIN tm THEN tm[n[4]] ELSE <<"?", n[4]>>
      zs == {x[1] : x \in LeavesOf(z)}
      os == {x[1] : x \in LeavesOf(o)}
      S == zs \union os
      d == diff[Min(S), Max(S)]
  IN \/ Broken(z) \/ Broken(o)       \* that is another difference
     \/ /\ 0 \notin S
        /\ n[6] = d
        /\ n[5] = Cardinality(S)
        /\ Cardinality(LeavesOf(z)) + Cardinality(LeavesOf(o)) = Cardinality(S)
        /\ \A k \in zs : bits[k][d + 1] = 0
        /\ \A k \in os : bits[k][d + 1] = 1
        /\ n[7] # 0 /\ \A k \in S : n[7] = k \/ diff[k, n[7]] >= d

StoreStep ==
  LET s == NodesOf(Ev.nodes)
      built == [l \in DOMAIN s |-> IF s[l][2] = "d" THEN <<"?", l>> ELSE Build(s, l, Fuel)]
      \* a data node's term needs its leaf
      datas == UNION {IF s[l][2] = "l" /\ s[l][4] \in DOMAIN s /\ s[s[l][4]][2] = "d"
                      THEN {<<s[l][4], D(s[l][3], s[s[l][4]][3])>>} ELSE {} : l \in DOMAIN s}
      whole == {<<l, built[l]>> : l \in {x \in DOMAIN s : s[x][2] # "d" /\ ~Broken(built[x])}} \union datas
      found == FoldSet(LAMBDA x, f : (x[1] :> x[2]) @@ f, <<>>, whole)
      needed == Reach(s, {root[m] : m \in DOMAIN root \intersect DOMAIN live}, {})
      \* the versions that were live before the last call
      others == IF act.op = "ins" /\ ~Ev.cut
                THEN {m \in DOMAIN root \intersect DOMAIN live :
                        m # VM!Overlay(act.base, act.upd) \/ live[m] > 1}
                ELSE DOMAIN root \intersect DOMAIN live
      \* nodes below something live
      mine == {l \in needed : l \in DOMAIN s}
  IN \* C02, C03, C12: whatever a live root needs is there
     /\ Check(IF Ev.cut THEN "missing_after_cut"
              ELSE CASE act.op = "ins" -> "missing_after_insert"
                     [] act.op = "rem" -> "missing_after_remove"
                     [] OTHER -> "missing_after_reject",
              Reach(s, {root[m] : m \in others}, {}) \subseteq DOMAIN s)
     /\ Check("store_missing", needed \subseteq DOMAIN s)
     \* C04, C16: and nothing else is
     /\ Check("store_extra", Ev.cut \/ dirty \/ DOMAIN s \subseteq needed)
     \* C05: the tree of a live root is the one of its contents
     /\ Check("shape", \A m \in DOMAIN live \intersect DOMAIN root :
                LET t == IF root[m] \in DOMAIN built THEN built[root[m]] ELSE <<"?", 0>>
                IN Broken(t) \/ t = CanonOf(m, diff, bits))
     /\ Check("shape", \A l \in mine : s[l][2] = "b" => BranchRight(built, s[l]))
     \* a location always stands for the same thing, and one thing has one location
     /\ Check("shape", \A l \in DOMAIN found \intersect DOMAIN term : found[l] = term[l])
     /\ Check("shape", Cardinality({found[l] : l \in DOMAIN found}) = Cardinality(DOMAIN found))
     \* C10: refused requests and reads have changed nothing
     /\ Check("reject_trace", ~inert \/ Ev.cut \/ s = store)
     /\ store' = s
     /\ term' = found @@ term
     /\ inert' = TRUE
     /\ IF Ev.cut THEN dirty' = TRUE ELSE UNCHANGED dirty
     /\ UNCHANGED <<live, act, root, bits, diff, limit>>

----------------------------------------------------------------------------
(* Answers                                                                 *)
\* a root that the store, as last seen, does not hold
Unheld(loc) == inert /\ ~dirty /\ loc \notin DOMAIN store
GetStep ==
  /\ IF ~Known(Ev.root)
     THEN /\ Check("former_read", Unheld(Ev.root) /\ Ev.ok =>
                  {<<Ev.found[j][1], Ev.found[j][2]>> : j \in 1 .. Len(Ev.found)} = {<<Ev.q[j], 0>> : j \in 1 .. Len(Ev.q)})
          /\ Check("unknown_read", Unheld(Ev.root) => Ev.ok)
     ELSE LET m == ContentsOf(Ev.root)
              Q == {Ev.q[j] : j \in 1 .. Len(Ev.q)}
              ans == {<<Ev.found[j][1], Ev.found[j][2]>> : j \in 1 .. Len(Ev.found)}
              want == {<<k, IF k \in DOMAIN m THEN m[k] ELSE 0>> : k \in Q}
              deep == Deep(m)
          IN IF Ev.ok
             THEN IF deep = {} THEN Check("read", ans = want /\ Len(Ev.found) = Cardinality(Q))
                  ELSE Check("depth_answer", Q \intersect deep = {} /\ ans = want)
             ELSE IF deep = {} THEN Differs(IF limit > Len(bits[1]) THEN "read" ELSE "depth_answer")
                  ELSE Check("depth_answer", ~(Q \subseteq DOMAIN m \ deep))
  /\ UNCHANGED <<live, dirty, act, root, term, store, inert, bits, diff, limit>>

OneStep ==
  /\ IF ~Known(Ev.root)
     THEN /\ Check("former_read", Unheld(Ev.root) /\ Ev.ok => Ev.v = 0)
          /\ Check("unknown_read", Unheld(Ev.root) => Ev.ok)
     ELSE LET m == ContentsOf(Ev.root)
              deep == Deep(m)
          IN IF Ev.ok
             THEN IF Ev.k \in deep THEN Differs("depth_answer")
                  ELSE Check("read_one", Ev.v = IF Ev.k \in DOMAIN m THEN m[Ev.k] ELSE 0)
             ELSE IF deep = {} \/ Ev.k \in DOMAIN m \ deep
                  THEN Differs(IF limit > Len(bits[1]) THEN "read_one" ELSE "depth_answer") ELSE TRUE
  /\ UNCHANGED <<live, dirty, act, root, term, store, inert, bits, diff, limit>>

ProveStep ==
  /\ IF ~Known(Ev.root) THEN Check("proof_absent", Unheld(Ev.root) => ~Ev.ok)
     ELSE LET m == ContentsOf(Ev.root)
              deep == Deep(m)
          IN IF Ev.ok
             THEN IF Ev.k \notin DOMAIN m THEN Differs("proof_absent")
                  ELSE IF Ev.k \in deep THEN Differs("depth_answer")
                  ELSE Check("proof", Verify(TermAt(Ev.root), Ev.k, m[Ev.k], ProofTerms(Ev.p)))
             ELSE IF Ev.k \in DOMAIN m \ deep
                  THEN Differs(IF limit > Len(bits[1]) THEN "proof" ELSE "depth_answer") ELSE TRUE
  /\ UNCHANGED <<live, dirty, act, root, term, store, inert, bits, diff, limit>>

VerifyStep ==
  /\ LET right == Verify(TermAt(Ev.root), Ev.k, Ev.v, ProofTerms(Ev.p))
     IN /\ Check("forged", Ev.ok => right)
        /\ Check("proof", right => Ev.ok)
  /\ UNCHANGED <<live, dirty, act, root, term, store, inert, bits, diff, limit>>

----------------------------------------------------------------------------
(* Calls                                                                   *)
Open ==
  /\ live' = <<>> /\ dirty' = FALSE /\ act' = [op |-> "init"]
  /\ root' = <<>> /\ term' = <<>> /\ store' = <<>> /\ inert' = FALSE
  /\ bits' = Ev.bits
  /\ diff' = LET b == Ev.bits IN [x \in 1 .. Len(b), y \in 1 .. Len(b) |-> FirstDiff(b[x], b[y])]
  /\ limit' = Ev.limit

Insert ==
  /\ IF Ev.base # 0 /\ ~Known(Ev.base)
     THEN UNCHANGED <<live, dirty, act, root>>
     ELSE LET base == IF Ev.base = 0 THEN <<>> ELSE ContentsOf(Ev.base)
              m == VM!Overlay(base, MapOf(Ev.upd))
          IN /\ VM!Insert(base, MapOf(Ev.upd))
             /\ root' = (m :> Ev.root) @@ root
             /\ Check("same_contents_other_root", m \in DOMAIN live => root[m] = Ev.root)
             /\ Check("other_contents_same_root", \A x \in DOMAIN live \ {m} : root[x] # Ev.root)
  /\ inert' = FALSE
  /\ UNCHANGED <<term, store, bits, diff, limit>>

Remove ==
  /\ IF ~Known(Ev.root)
     THEN UNCHANGED <<live, dirty, act, root>>
     ELSE /\ VM!Remove(ContentsOf(Ev.root))
          /\ root' = [m \in DOMAIN live' |-> root[m]]
  /\ inert' = FALSE
  /\ UNCHANGED <<term, store, bits, diff, limit>>

\* refused, or nothing to do
Inert ==
  /\ VM!RemoveUnknown
  /\ UNCHANGED <<root, term, store, inert, bits, diff, limit>>

----------------------------------------------------------------------------
TraceInit == /\ i = 0
             /\ live = <<>> /\ dirty = FALSE /\ act = [op |-> "init"]
             /\ root = <<>> /\ term = <<>> /\ store = <<>> /\ inert = FALSE
             /\ bits = <<>> /\ diff = <<>> /\ limit = 0

TraceNext ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ CASE Ev.op = "open"   -> Open
       [] Ev.op = "ins"    -> Insert
       [] Ev.op = "rem"    -> Remove
       [] Ev.op = "inert"  -> Inert
       [] Ev.op = "store"  -> StoreStep
       [] Ev.op = "get"    -> GetStep
       [] Ev.op = "one"    -> OneStep
       [] Ev.op = "prove"  -> ProveStep
       [] Ev.op = "verify" -> VerifyStep
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Line == i

\* every line was read
Consumed == (i = Len(Trace)) => PrintT(ToString(<<"CONSUMED", i>>))
\* the guarantees of VersionedMap on the steps taken
InsertIsolated == [][i' = i + 1 /\ Ev.op = "ins" =>
                       \A m \in DOMAIN live : m \in DOMAIN live' /\ live'[m] >= live[m]]_tvars
RemoveIsolated == [][i' = i + 1 /\ Ev.op = "rem" =>
                       Cardinality({m \in DOMAIN live : m \notin DOMAIN live' \/ live'[m] # live[m]}) <= 1]_tvars
=============================================================================
