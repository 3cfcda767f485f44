-------------------------------- MODULE VMSim --------------------------------
(* Long random behaviours of VersionedMap for `tlc -simulate': more keys   *)
(* and values than the state graph can be enumerated for.  Every step is a *)
(* step of VersionedMap (property StepsAllowed); the choice of    *)
(* the next step is weighted towards what is interesting: overwriting,     *)
(* reverting, building on old versions, and repeating contents.            *)
EXTENDS VersionedMap
CONSTANTS Depth
VARIABLES log
simvars == <<live, dirty, act, log>>

RandomMap(S) == TLCEval([k \in S |-> RandomElement(Val)])
\* each element with a chance of one in n, at least one
SomeOf(S) == LET n == RandomElement({1, 2, 2, 3, 5})
                 T == TLCEval({k \in S : RandomElement(1 .. n) = 1})
             IN IF T = {} THEN {RandomElement(S)} ELSE T
SomeLive == RandomElement(DOMAIN live)

Onto(base) == \* one of the things an insert onto base could bring
  \E dice \in {RandomElement(1 .. 12)} :
    IF DOMAIN live = {} \/ dice <= 8
    THEN \E S \in {SomeOf(Key)} : \E upd \in {RandomMap(S)} : Insert(base, upd)
    ELSE IF dice <= 10
    \* the very contents of a live version
    THEN \E m \in {SomeLive} : Insert(base, m)
    \* some pairs of a live version: reverts and merges
    ELSE \E m \in {SomeLive} : \E S \in {SomeOf(DOMAIN m)} : Insert(base, [k \in S |-> m[k]])

Step ==
  \E dice \in {RandomElement(1 .. 20)}, new \in {RandomElement(1 .. 4) = 1} :
  \E base \in {IF DOMAIN live = {} \/ new THEN NoBase ELSE SomeLive} :
    IF DOMAIN live = {} \/ (Handles < MaxLive /\ dice <= 12) THEN Onto(base)
    ELSE IF dice <= 18 THEN \E m \in {SomeLive} : Remove(m)
    ELSE IF dice = 19 THEN \E kind \in {RandomElement(RejectKinds)} : Reject(kind, base)
    ELSE RemoveUnknown

SimInit == Init /\ log = <<>>
SimNext == /\ TLCGet("level") <= Depth
           /\ Step
           /\ log' = Append(log, <<ActCode(act'), Bag(live')>>)
SimSpec == SimInit /\ [][SimNext]_simvars

StepsAllowed ==
  [][CASE act'.op = "ins" -> Insert(act'.base, act'.upd) /\ DOMAIN act'.upd \subseteq Key /\ DOMAIN act'.upd # {}
       [] act'.op = "rem" -> Remove(act'.m)
       [] act'.op = "rej" -> Reject(act'.kind, act'.base)
       [] OTHER -> RemoveUnknown]_vars
\* printed once, at the end of each behaviour
Printed == (Len(log) = Depth) => PrintT(ToString(<<"B", log>>))
=============================================================================
