--------------------------------- MODULE Steps ---------------------------------
(***************************************************************************)
(* The calls of MerkleStore, one storage operation at a time, refine       *)
(* RefCount: every single operation is one of its steps (or none).  What   *)
(* RefCountProofs proves of RefCount, for graphs of any size and histories *)
(* of any length, therefore holds between any two operations of the code   *)
(* as MerkleStore describes it: that is where a process may die (C12).     *)
(*                                                                         *)
(* Nothing has to be recorded for this: what is owned, by a live root or   *)
(* by the call under way, is what the counts exceed the parents by.        *)
(***************************************************************************)
EXTENDS MS

VARIABLES call,  \* <<>>, or what was asked for, and the store it was asked of
          at     \* the number of operations done
all == <<db, live, root, cuts, call, at>>

Idle == call = <<>>
\* the store after the first n operations of the call, and whether that is all of them
After(c, n) ==
  IF c.op = "insert" THEN LET r == InsertOp(c.on, c.base, c.upd, n)
                          IN [db |-> r.e.db, more |-> r.e.cut, ok |-> r.ok, top |-> r.top]
  ELSE LET e == RemoveOp(c.on, c.base, n) IN [db |-> e.db, more |-> e.cut, ok |-> TRUE, top |-> <<>>]

SInit == Init /\ call = <<>> /\ at = 0

AskInsert(base, upd) ==
  /\ Idle /\ Handles < MaxLive
  /\ call' = [op |-> "insert", on |-> db, base |-> RootOf(base), upd |-> upd, new |-> upd @@ base]
  /\ at' = 0 /\ UNCHANGED vars
\* its handle is given up when the call is made
AskRemove(m) ==
  /\ Idle
  /\ call' = [op |-> "remove", on |-> db, base |-> root[m], upd |-> <<>>, new |-> <<>>]
  /\ live' = DropHandle(live, m)
  /\ root' = [x \in DOMAIN live' |-> root[x]]
  /\ at' = 0 /\ UNCHANGED <<db, cuts>>
Operate ==
  /\ ~Idle
  /\ After(call, at).more
  /\ db' = After(call, at + 1).db
  /\ at' = at + 1
  /\ UNCHANGED <<live, root, cuts, call>>
Return ==
  /\ ~Idle
  /\ LET r == After(call, at) IN
     /\ ~r.more
     /\ IF call.op = "insert" /\ r.ok
        THEN /\ live' = AddHandle(live, call.new)
             /\ root' = (call.new :> r.top) @@ root
        ELSE UNCHANGED <<live, root>>
  /\ call' = <<>> /\ at' = 0
  /\ UNCHANGED <<db, cuts>>
Perish == ~Idle /\ cuts < MaxCuts /\ cuts' = cuts + 1 /\ call' = <<>> /\ at' = 0 /\ UNCHANGED <<db, live, root>>

SNext == \/ \E base \in {<<>>} \union DOMAIN live, upd \in Maps : AskInsert(base, upd)
         \/ \E m \in DOMAIN live : AskRemove(m)
         \/ Operate \/ Return \/ Perish
SSpec == SInit /\ [][SNext]_all

----------------------------------------------------------------------------
Locs == UNION {Nodes(Canon(m)) : m \in Maps}
RefsOf == [l \in Locs |-> IF l \in DOMAIN db THEN db[l].refs ELSE 0]
OwnOf == [l \in Locs |-> RefsOf[l] - Parents(l)]
RCount == INSTANCE RefCount WITH Loc <- Locs, Kids <- [l \in Locs |-> Children(l)], Cuts <- FALSE,
                                 Owners <- 0 .. 1000, Bug <- "none",
                                 stored <- DOMAIN db, refs <- RefsOf, own <- OwnOf

\* every operation is a step of the reference counting
Counts == [][RCount!Step]_<<DOMAIN db, RefsOf, OwnOf>>
\* and the call has at any time what belongs to the live roots, and nothing when it is done
Sane == DOMAIN db \subseteq Locs /\ RCount!Inv /\ RCount!Readable
Held == \A l \in Locs : OwnOf[l] >= HandlesOf(l)
Done == Idle /\ ~dirty => \A l \in Locs : OwnOf[l] = HandlesOf(l)
=============================================================================
