-------------------------------- MODULE Can --------------------------------
(***************************************************************************)
(* Type-erased containers (daab::canning).  A handle slot holds nothing, a *)
(* transparent Bin of a known type, an opaque Can, a Bin unsized to a      *)
(* trait object, or a weak handle.  The same module describes every        *)
(* provided container kind: "rc", "arc", "box", and "ba" (BuilderArtifact, *)
(* whose values are builders and whose Bins are the two sized blueprint    *)
(* forms of them).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NH, NV, NT, Kind, Unsz,
  Only                              \* TRUE: cans and weak handles only, but more of them
H == 1..NH
V == 1..NV
T == 1..NT
VARIABLES h, ty, mod, lab, out
vars == <<h, ty, mod, lab, out>>

Empty == <<"none", 0, 0>>
Strong == {"bin", "can", "ubin"}
Shares == Kind # "box"              \* cans and bins can be cloned
HasWeak == Kind \in {"rc", "arc"}
HasRef == Kind # "ba"
\* For "ba" the types are builder type 1 as Blueprint, builder type 2 as Blueprint, and the
\* two as BlueprintUnsized (3, 4): the builder decides, not the form of blueprint.
Fits(t, u) == IF Kind = "ba" THEN (t - 1) % 2 = (u - 1) % 2 ELSE t = u
ZST(t) == Kind # "ba" /\ t = 3
Users(hh, v) == {i \in H : hh[i][1] \in Strong /\ hh[i][2] = v}

\* Values without strong handle are released; weak handles to them refer to nothing.
Settle(hh, tt, mm) ==
  LET dead == {v \in V : tt[v] # 0 /\ Users(hh, v) = {}}
  IN /\ h' = [i \in H |-> IF hh[i][1] = "weak" /\ hh[i][2] \in dead THEN <<"weak", 0, 0>> ELSE hh[i]]
     /\ ty' = [v \in V |-> IF v \in dead THEN 0 ELSE tt[v]]
     /\ mod' = [v \in V |-> IF v \in dead THEN 0 ELSE mm[v]]
Fresh == {v \in V : ty[v] = 0 /\ \A w \in 1..(v-1) : ty[w] # 0}
Free == {i \in H : h[i] = Empty}

Init == h = [i \in H |-> Empty] /\ ty = [v \in V |-> 0] /\ mod = [v \in V |-> 0]
        /\ lab = <<"Init">> /\ out = <<>>

\* into_bin and from_inner
Make(i, t, f) == \E v \in Fresh :
  /\ h[i] = Empty /\ (Only => f = "can")
  /\ Settle([h EXCEPT ![i] = <<f, v, IF f = "bin" THEN t ELSE 0>>], [ty EXCEPT ![v] = t], mod)
  /\ lab' = <<IF f = "bin" THEN "MakeBin" ELSE "MakeCan", i, t>> /\ out' = <<v>>
\* from_bin
Pack(i) ==
  /\ h[i][1] = "bin"
  /\ Settle([h EXCEPT ![i] = <<"can", h[i][2], 0>>], ty, mod)
  /\ lab' = <<"Pack", i>> /\ out' = <<>>
\* downcast_can: gives the can up, even if it does not fit.
Unpack(i, u) ==
  /\ h[i][1] = "can" /\ ~Only
  /\ LET ok == Fits(ty[h[i][2]], u)
     IN /\ Settle([h EXCEPT ![i] = IF ok THEN <<"bin", h[i][2], u>> ELSE Empty], ty, mod)
        /\ out' = <<IF ok THEN 1 ELSE 0>>
  /\ lab' = <<"Unpack", i, u>>
\* downcast_can_ref
Peek(i, u) ==
  /\ HasRef /\ h[i][1] = "can"
  /\ out' = IF Fits(ty[h[i][2]], u) THEN <<1, h[i][2], mod[h[i][2]]>> ELSE <<0>>
  /\ lab' = <<"Peek", i, u>> /\ UNCHANGED <<h, ty, mod>>
\* downcast_can_mut, changing the value
Poke(i, u) ==
  /\ Kind = "box" /\ h[i][1] = "can"
  /\ LET v == h[i][2] ok == Fits(ty[v], u)
     IN /\ out' = <<IF ok THEN 1 ELSE 0>>
        /\ mod' = IF ok /\ ~ZST(u) THEN [mod EXCEPT ![v] = 1 - @] ELSE mod
  /\ lab' = <<"Poke", i, u>> /\ UNCHANGED <<h, ty>>
Dup(i, j) ==
  /\ Shares /\ h[i][1] \in Strong /\ h[j] = Empty
  /\ Settle([h EXCEPT ![j] = h[i]], ty, mod)
  /\ lab' = <<"Dup", i, j>> /\ out' = <<>>
\* CanUnsized::into_unsized
Unsize(i) ==
  /\ Unsz /\ Kind # "ba" /\ h[i][1] = "bin"
  /\ Settle([h EXCEPT ![i] = <<"ubin", h[i][2], 0>>], ty, mod)
  /\ lab' = <<"Unsize", i>> /\ out' = <<>>
Downgrade(i, j) ==
  /\ HasWeak /\ h[i][1] = "can" /\ h[j] = Empty
  /\ Settle([h EXCEPT ![j] = <<"weak", h[i][2], 0>>], ty, mod)
  /\ lab' = <<"Downgrade", i, j>> /\ out' = <<>>
Upgrade(i, j) ==
  /\ h[i][1] = "weak" /\ h[j] = Empty
  /\ LET v == h[i][2]
     IN /\ Settle(IF v = 0 THEN h ELSE [h EXCEPT ![j] = <<"can", v, 0>>], ty, mod)
        /\ out' = <<IF v = 0 THEN 0 ELSE 1>>
  /\ lab' = <<"Upgrade", i, j>>
Drop(i) ==
  /\ h[i] # Empty
  /\ Settle([h EXCEPT ![i] = Empty], ty, mod)
  /\ lab' = <<"Drop", i>> /\ out' = <<>>

\* New handles go to the first free slot, as slots are alike.
First(j) == j \in Free /\ \A x \in Free : x >= j
Next == \/ \E i \in H : First(i) /\ \E t \in T : Make(i, t, "bin") \/ Make(i, t, "can")
        \/ \E i \in H : Pack(i) \/ Drop(i) \/ Unsize(i)
        \/ \E i \in H, u \in T : Unpack(i, u) \/ Peek(i, u) \/ Poke(i, u)
        \/ \E i, j \in H : First(j) /\ (Dup(i, j) \/ Downgrade(i, j) \/ Upgrade(i, j))
Spec == Init /\ [][Next]_vars

(***************************** C18 on the spec *****************************)
TypeOK == \A i \in H : h[i][1] \in Strong => h[i][2] \in V /\ ty[h[i][2]] # 0
NoLeak == \A v \in V : ty[v] # 0 <=> Users(h, v) # {}
BinType == \A i \in H : h[i][1] = "bin" => Fits(ty[h[i][2]], h[i][3])
WeakExact == \A i \in H : h[i][1] = "weak" /\ h[i][2] # 0 => Users(h, h[i][2]) # {}
\* A value keeps its type and content through everything but Poke; refusing touches nothing else.
Identity ==
  [][ /\ \A v \in V : ty[v] # 0 /\ ty'[v] # 0 => ty'[v] = ty[v] /\ (mod'[v] # mod[v] => lab'[1] = "Poke" /\ out' = <<1>>)
      /\ \A i \in H : h[i] # Empty /\ h'[i] # Empty /\ h[i][2] # 0 /\ h'[i][2] # 0 => h'[i][2] = h[i][2]
      /\ lab'[1] \in {"Peek", "Poke"} => h' = h
      /\ lab'[1] = "Unpack" => \A i \in H \ {lab'[2]} : h'[i][1] = h[i][1] /\ (h'[i] # h[i] => h[i][1] = "weak")
    ]_vars
\* A value is released exactly when its last strong handle goes.
Release ==
  [][ \A v \in V : (ty[v] # 0 /\ ty'[v] = 0) => Cardinality(Users(h, v)) = 1 /\ Users(h', v) = {} ]_vars
UpgradeExact ==
  [][ lab'[1] = "Upgrade" => (out' = <<1>>) = (h[lab'[2]][2] # 0 /\ Users(h, h[lab'[2]][2]) # {}) ]_vars

(******************************** the replay *******************************)
Key == <<h, ty, mod>>
Code(f) == CASE f = "none" -> 0 [] f = "bin" -> 1 [] f = "can" -> 2 [] f = "ubin" -> 3 [] f = "weak" -> 4
KeyI(hh, tt, mm) == <<[i \in H |-> <<Code(hh[i][1]), hh[i][2], hh[i][3]>>], tt, mm>>
\* What can be seen: for each slot its form, the value it leads to and that value's content;
\* and how many values of each type are alive.
Obs(hh, tt, mm) ==
  <<[i \in H |-> <<Code(hh[i][1]), hh[i][2], IF hh[i][2] = 0 THEN 0 ELSE mm[hh[i][2]]>>],
    [t \in T |-> Cardinality({v \in V : tt[v] = t})]>>
View == <<h, ty, mod>>
ViewSrc == vars
EmitState == PrintT(ToString(<<"S", KeyI(h, ty, mod), Obs(h, ty, mod)>>))
EmitEdge == PrintT(ToString(<<"E", KeyI(h, ty, mod), lab', out', KeyI(h', ty', mod')>>))
=============================================================================
