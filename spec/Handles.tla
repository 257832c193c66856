------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Blueprints: which of them denote the same builder, and what a cache     *)
(* knows under them.  A handle slot holds a blueprint in one of the forms  *)
(*   bp    Blueprint<B>                 dyn   BlueprintDyn                  *)
(*   bpu   BlueprintUnsized<B>          bpud  BlueprintUnsized<dyn Builder> *)
(* Handles are created, cloned, converted and dropped; a builder dies with *)
(* its last handle, and later builders may be put at the same address.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NH, NB, Forms, MaxZ
H == 1..NH
B == 1..NB
VARIABLES h, st, z, lab, out
vars == <<h, st, z, lab, out>>
\* h[i] = <<form, builder>>; st[b] = <<known, state, artifact?>>, state 0 none, 1 initial, 2 written;
\* z = builders without handle which the cache still knows.
Empty == <<"none", 0>>
New0 == <<0, 0, 0>>
Holds(hh, b) == {i \in H : hh[i][2] = b}
Born(hh) == {b \in B : Holds(hh, b) # {}}
Free == {i \in H : h[i] = Empty}
First(j) == j \in Free /\ \A x \in Free : x >= j
\* From which form which other one can be made.
Conv(f) == CASE f = "bp" -> {"dyn", "bpu", "bpud"} [] f = "bpu" -> {"bpud"} [] f = "dyn" -> {"bpud"} [] OTHER -> {}

Init == h = [i \in H |-> Empty] /\ st = [b \in B |-> New0] /\ z = 0 /\ lab = <<"Init">> /\ out = <<>>

Set(hh, ss, zz) ==
  LET dead == {b \in B : Holds(h, b) # {} /\ Holds(hh, b) = {}}
  IN /\ h' = hh
     /\ st' = [b \in B |-> IF b \in dead THEN New0 ELSE ss[b]]
     /\ z' = zz + Cardinality({b \in dead : ss[b][1] = 1})
Create(i, f) ==
  /\ First(i) /\ \E b \in B \ Born(h) :
       /\ \A x \in 1..(b-1) : x \in Born(h)
       /\ Set([h EXCEPT ![i] = <<f, b>>], st, z) /\ out' = <<b>>
  /\ lab' = <<"Create", i, f>>
Clone(i, j) ==
  /\ h[i] # Empty /\ First(j) /\ Set([h EXCEPT ![j] = h[i]], st, z)
  /\ lab' = <<"Clone", i, j>> /\ out' = <<>>
Convert(i, f) ==
  /\ h[i] # Empty /\ f \in Conv(h[i][1]) \cap Forms
  /\ Set([h EXCEPT ![i] = <<f, @[2]>>], st, z)
  /\ lab' = <<"Convert", i, f>> /\ out' = <<>>
Drop(i) ==
  /\ h[i] # Empty
  /\ z + (IF Cardinality(Holds(h, h[i][2])) = 1 THEN st[h[i][2]][1] ELSE 0) <= MaxZ
  /\ Set([h EXCEPT ![i] = Empty], st, z)
  /\ lab' = <<"Drop", i>> /\ out' = <<>>
\* The cache, under handle i.  A builder makes artifacts from its state: 1 initial, 2 written.
Use(i) == h[i] # Empty
Get(i) ==
  /\ Use(i)
  /\ LET b == h[i][2] s1 == IF st[b][2] = 0 THEN 1 ELSE st[b][2]
     IN /\ st' = [st EXCEPT ![b] = <<1, s1, 1>>]
        /\ out' = <<b, s1, 1 - st[b][3]>>         \* of which builder, from which state, was it run?
  /\ lab' = <<"Get", i>> /\ UNCHANGED <<h, z>>
Write(i) ==
  /\ Use(i) /\ st' = [st EXCEPT ![h[i][2]] = <<1, 2, 0>>]
  /\ out' = <<IF st[h[i][2]][2] = 0 THEN 1 ELSE st[h[i][2]][2]>>       \* the state found
  /\ lab' = <<"Write", i>> /\ UNCHANGED <<h, z>>
Invalidate(i) ==
  /\ h[i][1] \in {"bp", "bpu"}        \* not offered for the dynamic forms
  /\ st' = [st EXCEPT ![h[i][2]] = <<@[1], @[2], 0>>]
  /\ lab' = <<"Invalidate", i>> /\ out' = <<>> /\ UNCHANGED <<h, z>>
Purge(i) ==
  /\ Use(i) /\ st' = [st EXCEPT ![h[i][2]] = New0]
  /\ lab' = <<"Purge", i>> /\ out' = <<>> /\ UNCHANGED <<h, z>>
Collect ==
  /\ z' = 0 /\ lab' = <<"Collect">> /\ out' = <<>> /\ UNCHANGED <<h, st>>

ClearAll ==
  /\ z' = 0 /\ st' = [b \in B |-> New0] /\ lab' = <<"ClearAll">> /\ out' = <<>> /\ UNCHANGED h
ClearArtifacts ==
  /\ st' = [b \in B |-> <<st[b][1], st[b][2], 0>>] /\ lab' = <<"ClearArtifacts">> /\ out' = <<>> /\ UNCHANGED <<h, z>>

Next == \/ \E i \in H, f \in Forms : Create(i, f) \/ Convert(i, f)
        \/ \E i, j \in H : Clone(i, j)
        \/ \E i \in H : Drop(i) \/ Get(i) \/ Write(i) \/ Invalidate(i) \/ Purge(i)
        \/ Collect \/ ClearAll \/ ClearArtifacts
Spec == Init /\ [][Next]_vars

(************************** C09 and C20 on the spec ************************)
Unborn == \A b \in B : b \notin Born(h) => st[b] = New0
NewIsFresh == [][ lab'[1] = "Create" => st'[h'[lab'[2]][2]] = New0 ]_vars
SameBuilder == [][ /\ lab'[1] = "Clone" => h'[lab'[3]][2] = h[lab'[2]][2]
                   /\ lab'[1] = "Convert" => h'[lab'[2]][2] = h[lab'[2]][2]
                   /\ lab'[1] \in {"Clone", "Convert"} => st' = st /\ z' = z ]_vars
OneEntry == [][ lab'[1] \in {"Get", "Write", "Invalidate", "Purge"} =>
                  \A b \in B \ {h[lab'[2]][2]} : st'[b] = st[b] ]_vars

(******************************** the replay *******************************)
Code(f) == CASE f = "none" -> 0 [] f = "bp" -> 1 [] f = "dyn" -> 2 [] f = "bpu" -> 3 [] f = "bpud" -> 4
Lab(l) == IF Len(l) = 3 /\ l[1] \in {"Create", "Convert"} THEN <<l[1], l[2], Code(l[3])>> ELSE l
KeyI(hh, ss, zz) == <<[i \in H |-> <<Code(hh[i][1]), hh[i][2]>>], ss, zz>>
\* For each pair of handles: equal?  For each handle: known, state, artifact; known builders in all.
Obs(hh, ss, zz) ==
  <<[i \in H |-> [j \in H |-> IF hh[i] # Empty /\ hh[i][2] = hh[j][2] THEN 1 ELSE 0]],
    [i \in H |-> IF hh[i] = Empty THEN New0 ELSE ss[hh[i][2]]],
    zz + Cardinality({b \in B : ss[b][1] = 1})>>
View == <<h, st, z>>
ViewSrc == vars
EmitState == PrintT(ToString(<<"S", KeyI(h, st, z), Obs(h, st, z)>>))
EmitEdge == PrintT(ToString(<<"E", KeyI(h, st, z), Lab(lab'), out', KeyI(h', st', z')>>))
=============================================================================
