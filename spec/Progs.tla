------------------------------- MODULE Progs -------------------------------
(***************************************************************************)
(* The programs whose state graphs are explored and replayed.  A program   *)
(* says what each builder is and which handles it, its artifacts and its    *)
(* dynamic state own; everything else is up to the environment.             *)
(***************************************************************************)
EXTENDS DaabCache

U == NoProg                                        \* a user builder owning nothing
Own(k, o) == [NoProg EXCEPT !.kind = k, !.owns = o]
OwnA(o, a, d) == [NoProg EXCEPT !.owns = o, !.aowns = a, !.downs = d]
W(k, i) == [NoProg EXCEPT !.kind = k, !.inner = i]
Red(i, d) == [NoProg EXCEPT !.kind = "redeem", !.inner = i, !.def = d]
Leaf(k) == [NoProg EXCEPT !.kind = k]

\* Every builder owns handles of all those before it.
ProgChain == [b \in B |-> Own("user", 1..(b-1))]
\* No builder owns anything; only builders whose handle the user holds can be resolved.
ProgFree  == [b \in B |-> U]
\* Artifacts and states own handles, too.
ProgArtOwn == [b \in B |-> IF b = 1 THEN U ELSE OwnA({b-1}, {b-1}, {})]
ProgDynOwn == [b \in B |-> IF b = 1 THEN U ELSE OwnA({b-1}, {}, {b-1})]
ProgMixOwn == [b \in B |-> CASE b = 1 -> U [] b = 2 -> OwnA({1}, {1}, {}) [] OTHER -> OwnA({1, 2}, {}, {1})]
ProgSimple == [b \in B |-> IF b = 2 THEN Own("simple", {1}) ELSE Own("user", 1..(b-1))]

\* Stand-ins.
ProgFwd    == <<U, W("fwd", 1), Own("user", {1, 2})>>
ProgClone  == <<U, W("clone", 1), Own("user", {1, 2})>>
ProgFwd2   == <<U, W("fwd", 1), W("fwd", 2)>>
ProgClo2   == <<U, W("clone", 1), W("clone", 2)>>
ProgFwdClo == <<U, W("clone", 1), W("fwd", 2)>>
ProgCloFwd == <<U, W("fwd", 1), W("clone", 2)>>
ProgFeign  == <<Leaf("simple"), W("feign", 1), Own("user", {2})>>
ProgFeignR == <<U, Red(1, TRUE), W("feign", 2)>>
ProgRedD   == <<U, Red(1, TRUE), Own("user", {2})>>
ProgRedN   == <<U, Red(1, FALSE), Own("user", {2})>>
ProgRedFwd == <<U, W("fwd", 1), Red(2, FALSE)>>
ProgRedClo == <<U, W("clone", 1), Red(2, TRUE)>>
ProgFwdRed == <<U, Red(1, FALSE), W("fwd", 2)>>
ProgCloRed == <<U, Red(1, TRUE), W("clone", 2)>>
ProgRedRed == <<U, Red(1, FALSE), Own("user", {1, 2})>>
ProgFunc   == <<Leaf("func"), W("clone", 1), Own("user", {1, 2})>>
ProgFuncF  == <<Leaf("func"), W("fwd", 1), Red(1, FALSE)>>
ProgFunc0  == <<Leaf("func0"), W("clone", 1), Own("user", {1, 2})>>
ProgFunc0F == <<Leaf("func0"), W("fwd", 1), Red(1, TRUE)>>
ProgConf   == <<Leaf("config"), W("clone", 1), Own("user", {1, 2})>>
ProgConfF  == <<Leaf("config"), W("fwd", 1), W("feign", 1)>>
ProgConst  == <<Leaf("const"), W("fwd", 1), Own("user", {1, 2})>>
ProgLeaves == <<Leaf("const"), Leaf("config"), Own("user", {1, 2})>>
ProgConF   == <<Leaf("const"), W("feign", 1), W("fwd", 1)>>
ProgSimW   == <<Leaf("simple"), W("fwd", 1), W("clone", 1)>>

\* Two builders, for use with two caches.
ProgRed2D  == <<U, Red(1, TRUE)>>
ProgRed2N  == <<U, Red(1, FALSE)>>
ProgConf2  == <<Leaf("config"), W("clone", 1)>>
ProgFunc2  == <<Leaf("func"), W("fwd", 1)>>
ProgLeaf2  == <<Leaf("const"), Leaf("config")>>

UsesAll == [b \in B |-> 1..(b-1)]
\* A builder uses only the one before it, or (last one) all.
UsesOwn == [b \in B |-> Prog[b].owns]

\* The program, for the replay.
ASSUME PrintT(ToString(<<"P", N, M, K,
         [b \in B |-> <<Prog[b].kind, Prog[b].inner, Mask(Prog[b].owns), Mask(Prog[b].aowns),
                        Mask(Prog[b].downs), Bit(Prog[b].def)>>]>>))
=============================================================================
