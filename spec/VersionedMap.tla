----------------------------- MODULE VersionedMap -----------------------------
(***************************************************************************)
(* What a user of merkle_bit relies on, with nothing of how it is done.    *)
(*                                                                         *)
(* The system is a bag of live versions.  A version is a finite non-empty  *)
(* map from keys to values; it is named by a root.  An insert overlays a   *)
(* batch on a base (or on nothing) and adds one handle to the resulting    *)
(* map; a remove takes one handle away.  Nothing else ever changes.        *)
(*                                                                         *)
(* `live'   the bag of live versions: map |-> number of handles            *)
(* `dirty'  a call was cut short by a crash or storage failure, so the     *)
(*          store may hold unreachable nodes (C12)                         *)
(* `act'    the last action, for the exported state graph only; hidden     *)
(*          from the state space by the VIEW                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS Key,       \* finite set of naturals
          Val,       \* finite set of naturals >= 1
          MaxLive,   \* bound on the total number of handles
          Crashes,   \* BOOLEAN: include interrupted calls
          Export     \* BOOLEAN: print every transition

VARIABLES live, dirty, act
vars == <<live, dirty, act>>

Maps == UNION {[S -> Val] : S \in (SUBSET Key) \ {{}}}

NoBase == <<>>                  \* the empty function: "insert into nothing"
Overlay(base, upd) == upd @@ base

RECURSIVE SumCount(_, _)
SumCount(f, S) == IF S = {} THEN 0
                  ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumCount(f, S \ {x})
Handles == SumCount(live, DOMAIN live)

AddHandle(b, m) == IF m \in DOMAIN b THEN [b EXCEPT ![m] = @ + 1]
                                     ELSE (m :> 1) @@ b
DropHandle(b, m) == IF b[m] > 1 THEN [b EXCEPT ![m] = @ - 1]
                                ELSE [x \in DOMAIN b \ {m} |-> b[x]]

----------------------------------------------------------------------------
Init == live = <<>> /\ dirty = FALSE /\ act = [op |-> "init"]

(* A valid insert always succeeds and names the overlaid contents. *)
Insert(base, upd) ==
  /\ base = NoBase \/ base \in DOMAIN live
  /\ Handles < MaxLive
  /\ live' = AddHandle(live, Overlay(base, upd))
  /\ UNCHANGED dirty
  /\ act' = [op |-> "ins", base |-> base, upd |-> upd]

(* Removing a live root takes one of its handles away. *)
Remove(m) ==
  /\ m \in DOMAIN live
  /\ live' = DropHandle(live, m)
  /\ UNCHANGED dirty
  /\ act' = [op |-> "rem", m |-> m]

(* Invalid requests are answered with an error and change nothing. *)
\* ("value": one of the values cannot be encoded)
RejectKinds == {"len", "empty", "dup", "unknown", "value"}
Reject(kind, base) ==
  /\ kind \in RejectKinds
  /\ base = NoBase \/ base \in DOMAIN live
  /\ UNCHANGED <<live, dirty>>
  /\ act' = [op |-> "rej", kind |-> kind, base |-> base]

(* Removing a root the store does not know is a successful no-op. *)
RemoveUnknown ==
  /\ UNCHANGED <<live, dirty>>
  /\ act' = [op |-> "remunk"]

(* An insert cut short: no root was handed out, every version is intact. *)
InsertCut(base, upd) ==
  /\ base = NoBase \/ base \in DOMAIN live
  /\ Handles < MaxLive
  /\ dirty' = TRUE
  /\ UNCHANGED live
  /\ act' = [op |-> "inscut", base |-> base, upd |-> upd]

(* A remove cut short: the handle is spent, every other version is intact. *)
RemoveCut(m) ==
  /\ m \in DOMAIN live
  /\ live' = DropHandle(live, m)
  /\ dirty' = TRUE
  /\ act' = [op |-> "remcut", m |-> m]

Next ==
  \/ \E base \in {NoBase} \union DOMAIN live, upd \in Maps : Insert(base, upd)
  \/ \E m \in DOMAIN live : Remove(m)
  \/ \E kind \in RejectKinds, base \in {NoBase} \union DOMAIN live : Reject(kind, base)
  \/ RemoveUnknown
  \/ Crashes /\ \E base \in {NoBase} \union DOMAIN live, upd \in Maps : InsertCut(base, upd)
  \/ Crashes /\ \E m \in DOMAIN live : RemoveCut(m)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Observations.  They are functions of `live' alone, and no step changes  *)
(* them except as the step says.                                           *)

ReadBatch(m, Q)  == [k \in Q |-> IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>]
ReadOne(m, k)    == ReadBatch(m, {k})[k]
Provable(m, k)   == k \in DOMAIN m
Accepts(m, k, v) == k \in DOMAIN m /\ m[k] = v
\* What the store may hold: exactly what the live versions need when clean.
Needed == UNION {{<<k, m[k]>> : k \in DOMAIN m} : m \in DOMAIN live}

TypeOK ==
  /\ DOMAIN live \subseteq Maps
  /\ \A m \in DOMAIN live : live[m] \in 1 .. MaxLive
  /\ Handles <= MaxLive
  /\ dirty \in BOOLEAN

\* C01: the new version reads as base overlaid with batch.
InsertReads ==
  [][act'.op = "ins" =>
       \E m \in DOMAIN live' :
          \A k \in Key : ReadOne(m, k) = IF k \in DOMAIN act'.upd THEN <<act'.upd[k]>>
                                         ELSE IF k \in DOMAIN act'.base THEN <<act'.base[k]>>
                                         ELSE <<>>]_vars
\* C02: an insert takes no version away and changes none.
InsertIsolated == [][act'.op \in {"ins", "inscut"} =>
                       \A m \in DOMAIN live : m \in DOMAIN live' /\ live'[m] >= live[m]]_vars
\* C03: a remove takes away one handle of one version.
RemoveIsolated == [][act'.op \in {"rem", "remcut"} =>
                       \A m \in DOMAIN live : m # act'.m =>
                          m \in DOMAIN live' /\ live'[m] = live[m]]_vars
\* C04: with no handle left nothing is needed.
ReclaimsAll == (live = <<>>) => (Needed = {})
\* C10: rejected requests change nothing.
RejectsInert == [][act'.op \in {"rej", "remunk"} => UNCHANGED <<live, dirty>>]_vars
\* C16: the number of handles is inserts minus removes.
HandleCount == [][/\ act'.op = "ins" => SumCount(live', DOMAIN live') = Handles + 1
                  /\ act'.op \in {"rem", "remcut"} => SumCount(live', DOMAIN live') + 1 = Handles]_vars

----------------------------------------------------------------------------
View == <<live, dirty>>

NV == Cardinality(Val) + 1
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* a map as a number in base |Val|+1, digit k is the value of key k, 0 for absent
Code(m) == SumSet({m[k] * Pow(NV, k) : k \in DOMAIN m})
Bag(b) == {<<Code(m), b[m]>> : m \in DOMAIN b}
ActCode(a) ==
  CASE a.op \in {"ins", "inscut"} -> <<a.op, Code(a.base), Code(a.upd)>>
    [] a.op \in {"rem", "remcut"} -> <<a.op, Code(a.m), 0>>
    [] a.op = "rej" -> <<a.kind, Code(a.base), 0>>
    [] OTHER -> <<a.op, 0, 0>>

ExportStep == Export => PrintT(ToString(<<"T", Bag(live), dirty, ActCode(act'), Bag(live'), dirty'>>))
=============================================================================
