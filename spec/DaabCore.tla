------------------------------ MODULE DaabCore ------------------------------
(***************************************************************************)
(* Operational model of daab: caches of artifacts that are produced by      *)
(* builders, which may use each other's artifacts (a dynamic DAG).          *)
(*                                                                          *)
(* The model is a set of operators on one state record `s`.  It is used by  *)
(* three specifications:                                                    *)
(*   DaabCache  the transition system, model checked against the listed     *)
(*              properties, whose state graph is replayed into the library, *)
(*   DaabTrace  which checks recorded executions of the library,            *)
(*   DaabObs    the properties as monitors of recorded executions.          *)
(*                                                                          *)
(* A step is what happens between two decisions of the environment.  The    *)
(* environment is the user of the caches and the code of the user's own     *)
(* builders, i.e. while a builder runs (it is on the stack) the environment *)
(* decides what it does next: resolve another builder, write its dynamic    *)
(* state, return an artifact or an error, or panic.  `s.out` is the         *)
(* sequence of everything observable that the library does in a step:       *)
(*   <<"I",b>>       it calls init_dyn_state of builder b                    *)
(*   <<"B",b,v>>     it calls build of b, which sees dynamic state v         *)
(*   <<"R",k,t,v>>   a resolve call made by the running builder returns      *)
(*   <<"T",k,t,v>>   a call made by the user returns                         *)
(*                   (k = "ok": artifact t with content v, "er": the error   *)
(*                   raised by builder t, "pa": a panic arrives)             *)
(*   <<"V",v,t>>     the dynamic state handed out to the user                *)
(*   <<"DR",b,d>> <<"DB",b,t>> <<"DI",b>> <<"DC">>   doctor events           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,      \* number of builder slots
          M,      \* number of caches
          K       \* artifact tokens of builder b are b*K .. b*K+K-1

B == 1..N
C == 1..M

None == <<0, 0>>            \* no artifact
NoDyn == <<-1, 0>>          \* no dynamic state

Origin(t) == t \div K       \* the builder that created artifact t
ConstTok(b) == b * K        \* artifact built into a constant/redeeming builder

UserKinds    == {"user", "simple", "func", "func0"}  \* run code of the environment
WrapperKinds == {"fwd", "clone", "feign", "redeem"}  \* resolve exactly one inner builder
LeafKinds    == {"const", "config"}
Kinds        == UserKinds \cup WrapperKinds \cup LeafKinds

(***************************************************************************)
(* The state.  `p` is the program: kind, inner builder, and which handles   *)
(* the builder itself, its artifacts and its dynamic state own; `def` tells *)
(* whether a redeeming builder has a default.                               *)
(***************************************************************************)
NoProg == [kind |-> "user", inner |-> 0, owns |-> {}, aowns |-> {}, downs |-> {}, def |-> FALSE]

InitState(prog, held) ==
  [ art   |-> [c \in C |-> [b \in B |-> None]],       \* <<token, content>>
    dyn   |-> [c \in C |-> [b \in B |-> NoDyn]],      \* <<value, token>>
    known |-> [c \in C |-> {}],
    dep   |-> [c \in C |-> {}],        \* <<u,d>>: u resolved d since u's last invalidation
    src   |-> [c \in C |-> {}],        \* ghost: <<u,d>>: u was given d's artifact in its last build
    held  |-> held,                    \* builders the user has a handle of
    kept  |-> {},                      \* artifacts the user has a shared handle of
    stk   |-> <<>>,                    \* running builds, innermost last
    ip    |-> FALSE,                   \* the next init_dyn_state panics
    gm    |-> <<0, 0>>,                \* the user is waiting for mutable access to <<c,b>>
    nt    |-> <<>>,                    \* recorded names of the next new artifacts (traces only)
    p     |-> prog,
    out   |-> <<>> ]

Emit(s, e) == [s EXCEPT !.out = Append(@, e)]
Kind(s, b) == s.p[b].kind
Top(s)     == s.stk[Len(s.stk)]
Pop(s)     == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Idle(s)    == s.stk = <<>>

-----------------------------------------------------------------------------
(* Tokens and reachability                                                   *)

ArtToks(s) == {s.art[c][b][1] : c \in C, b \in B} \ {0}
DynToks(s) == {s.dyn[c][b][2] : c \in C, b \in B} \ {0}
LiveToks(s) == ArtToks(s) \cup DynToks(s) \cup s.kept

\* A new artifact of b: recorded in a trace, otherwise the least unused name.
Fresh(s, b) ==
  IF s.nt # <<>> THEN Head(s.nt)
  ELSE LET used == LiveToks(s)
           free == {k \in 1..(K-1) : (b*K + k) \notin used}
       IN b*K + (CHOOSE k \in free : \A j \in free : k <= j)
UseFresh(s) == IF s.nt # <<>> THEN [s EXCEPT !.nt = Tail(@)] ELSE s

BuilderOwns(s, b) == s.p[b].owns \cup (IF s.p[b].inner # 0 THEN {s.p[b].inner} ELSE {})

RECURSIVE AliveClosure(_, _)
AliveClosure(s, X) ==
  LET Y == X \cup UNION {BuilderOwns(s, b) : b \in X}
  IN IF Y = X THEN X ELSE AliveClosure(s, Y)

\* Builders to which a handle exists anywhere.
Alive(s) ==
  AliveClosure(s,
    s.held
    \cup {s.stk[i].b : i \in 1..Len(s.stk)}
    \cup UNION {IF Origin(t) \in B THEN s.p[Origin(t)].aowns ELSE {} : t \in LiveToks(s)}
    \cup UNION {IF s.dyn[c][b] # NoDyn THEN s.p[b].downs ELSE {} : c \in C, b \in B})

-----------------------------------------------------------------------------
(* Dependencies                                                              *)

\* Everything that depends on a member of X, directly or not (including X).
RECURSIVE Dependents(_, _)
Dependents(dep, X) ==
  LET Y == X \cup {e[1] : e \in {f \in dep : f[2] \in X}}
  IN IF Y = X THEN X ELSE Dependents(dep, Y)

\* Discard the artifacts of X (X is closed under dependents, except possibly for
\* builders whose artifact is meant to be kept).
Discard(s, c, X) ==
  [s EXCEPT !.art[c] = [b \in B |-> IF b \in X THEN None ELSE @[b]],
            !.dep[c] = {e \in @ : e[1] \notin X},
            !.src[c] = {e \in @ : e[1] \notin X}]

MakeKnown(s, c, b) == [s EXCEPT !.known[c] = @ \cup {b}]

Track(s, c, u, d) ==
  Emit([MakeKnown(s, c, d) EXCEPT !.dep[c] = @ \cup {<<u, d>>}], <<"DR", u, d>>)

-----------------------------------------------------------------------------
(* Requesting artifacts                                                      *)

InitVal(s, b) ==
  CASE Kind(s, b) \in {"user", "func", "config"} -> <<10*b + 1, 0>>
    [] Kind(s, b) = "redeem" -> IF s.p[b].def THEN <<0, ConstTok(b)>> ELSE <<0, 0>>
    [] OTHER -> <<0, 0>>

\* A panic unwinds through n more running user builders (library code on the way
\* never catches it) and is then caught by the next one, or by the user.
RECURSIVE PanicTo(_, _)
PanicTo(s, n) ==
  IF Idle(s) THEN Emit([s EXCEPT !.gm = <<0, 0>>], <<"T", "pa", 0, 0>>)
  ELSE IF Kind(s, Top(s).b) \in UserKinds
       THEN IF n = 0 THEN Emit(s, <<"R", "pa", 0, 0>>) ELSE PanicTo(Pop(s), n - 1)
       ELSE PanicTo(Pop(s), n)

\* Make sure that b has a dynamic state; FALSE in `ok` if its initialisation panics.
EnsureDyn(s, c, b) ==
  LET s1 == MakeKnown(s, c, b)
  IN IF s1.dyn[c][b] # NoDyn THEN [ok |-> TRUE, s |-> s1]
     ELSE IF Kind(s, b) # "user"
          THEN [ok |-> TRUE, s |-> [s1 EXCEPT !.dyn[c][b] = InitVal(s, b)]]
          ELSE IF s.ip
               THEN [ok |-> FALSE, s |-> Emit([s1 EXCEPT !.ip = FALSE], <<"I", b>>)]
               ELSE [ok |-> TRUE, s |-> Emit([s1 EXCEPT !.dyn[c][b] = InitVal(s, b)], <<"I", b>>)]

RECURSIVE Demand(_, _, _), Begin(_, _, _), Deliver(_, _), Finish(_, _)

\* Somebody (the top of the stack, or the user) wants the artifact of b.
Demand(s, c, b) ==
  IF s.art[c][b] # None
  THEN Deliver(s, [k |-> "ok", t |-> s.art[c][b][1], v |-> s.art[c][b][2], from |-> b, c |-> c])
  ELSE Begin(s, c, b)

Begin(s, c, b) ==
  LET e == EnsureDyn(s, c, b)
      s1 == [e.s EXCEPT !.stk = Append(@, [b |-> b, c |-> c]),
                        !.src[c] = {x \in @ : x[1] # b}]
      k == Kind(s, b)
  IN IF ~e.ok THEN PanicTo(e.s, 0)
     ELSE CASE k \in UserKinds -> Emit(s1, <<"B", b, s1.dyn[c][b][1]>>)
            [] k = "const"  -> Finish(s1, [k |-> "ok", t |-> ConstTok(b), v |-> 0, from |-> b, c |-> c])
            [] k = "config" -> Finish(UseFresh(s1),
                                 [k |-> "ok", t |-> Fresh(s1, b), v |-> s1.dyn[c][b][1], from |-> b,
                                   c |-> c])
            [] OTHER        -> Demand(Track(s1, c, b, s.p[b].inner), c, s.p[b].inner)

\* The running builder returns r: remember an artifact, and hand r to the requester.
Finish(s, r) ==
  LET f == Top(s)
      s1 == Pop(s)
  IN IF r.k = "ok"
     THEN Deliver(Emit([s1 EXCEPT !.art[f.c][f.b] = <<r.t, r.v>>], <<"DB", f.b, r.t>>),
                  [r EXCEPT !.from = f.b])
     ELSE Deliver(s1, [r EXCEPT !.from = f.b])

\* The user changes the content of an artifact it got mutable access to.
MutVal(v) == IF v = 9 THEN 8 ELSE 9
Mutated(s, c, b) == [s EXCEPT !.art[c][b] = <<@[1], MutVal(@[2])>>]

Deliver(s, r) ==
  IF Idle(s)
  THEN LET s1 == Emit([s EXCEPT !.gm = <<0, 0>>], <<"T", r.k, r.t, r.v>>)
       IN IF r.k = "ok" /\ s.gm # <<0, 0>> THEN Mutated(s1, s.gm[1], s.gm[2]) ELSE s1
  ELSE
    LET f  == Top(s)
        k  == Kind(s, f.b)
        s1 == IF r.k = "ok" /\ r.c = f.c THEN [s EXCEPT !.src[f.c] = @ \cup {<<f.b, r.from>>}] ELSE s
    IN CASE k \in UserKinds -> Emit(s1, <<"R", r.k, r.t, r.v>>)
         [] k \in {"fwd", "feign"} -> Finish(s1, r)
         [] k = "clone" -> IF r.k = "ok"
                           THEN Finish(UseFresh(s1), [r EXCEPT !.t = Fresh(s1, f.b)])
                           ELSE Finish(s1, r)
         [] k = "redeem" ->
              IF r.k = "ok"
              THEN Finish([s1 EXCEPT !.dyn[f.c][f.b] = <<r.v, r.t>>], r)
              ELSE IF s1.dyn[f.c][f.b][2] # 0
                   THEN Finish(s1, [k |-> "ok", t |-> s1.dyn[f.c][f.b][2],
                                    v |-> s1.dyn[f.c][f.b][1], from |-> f.b, c |-> f.c])
                   ELSE PanicTo(s1, 0)

-----------------------------------------------------------------------------
(* Steps of the user (only while no builder is running)                      *)

Begun(s) == [s EXCEPT !.out = <<>>, !.ip = FALSE]

Get(s, c, b, ip) == [Demand([Begun(s) EXCEPT !.ip = ip], c, b) EXCEPT !.ip = FALSE]

DynRead(s, c, b, ip) ==
  LET e == EnsureDyn([Begun(s) EXCEPT !.ip = ip], c, b)
  IN IF e.ok THEN Emit([e.s EXCEPT !.ip = FALSE], <<"V", e.s.dyn[c][b][1], e.s.dyn[c][b][2]>>)
     ELSE PanicTo(e.s, 0)

Invalidate(s, c, b) ==
  Emit(Discard(Begun(s), c, Dependents(s.dep[c], {b})), <<"DI", b>>)

\* Hand out the dynamic state mutably; the user writes value v (for a redeeming
\* builder: makes it forget) before doing anything else.
DynMut(s, c, b, v, ip) ==
  LET e == EnsureDyn([Invalidate(s, c, b) EXCEPT !.ip = ip], c, b)
      w == IF Kind(s, b) \in {"user", "func", "config"} THEN <<10*b + v, 0>> ELSE <<0, 0>>
  IN IF e.ok THEN [Emit(e.s, <<"V", e.s.dyn[c][b][1], e.s.dyn[c][b][2]>>)
                     EXCEPT !.dyn[c][b] = w, !.ip = FALSE]
     ELSE PanicTo(e.s, 0)

Purge(s, c, b) ==
  [Invalidate(s, c, b) EXCEPT !.dyn[c][b] = NoDyn, !.known[c] = @ \ {b}]

ClearArtifacts(s, c) == Discard(Begun(s), c, B)

Emptied(s, c) ==
  [Discard(Begun(s), c, B) EXCEPT !.dyn[c] = [b \in B |-> NoDyn], !.known[c] = {}]

ClearAll(s, c) == Emit(Emptied(s, c), <<"DC">>)
Renew(s, c)    == Emptied(s, c)      \* the cache is dropped and replaced by a new one

\* What one collection removes: unreachable known builders nobody depends on.
Garbage(s, c) ==
  LET alive == Alive(s)
  IN {b \in s.known[c] : b \notin alive /\ \A e \in s.dep[c] : e[2] # b}

Collect(s, c) ==
  LET X == Garbage(s, c)
      s1 == Discard(Begun(s), c, X)
  IN [s1 EXCEPT !.dyn[c] = [b \in B |-> IF b \in X THEN NoDyn ELSE @[b]],
                !.known[c] = @ \ X]

StrictDependents(s, c, b) ==
  Dependents(s.dep[c], {e[1] : e \in {f \in s.dep[c] : f[2] = b}})
\* Mutable access to an artifact (boxed artifacts only): its dependents go, it stays.
LookupMut(s, c, b) ==
  LET s1 == Discard(Begun(s), c, StrictDependents(s, c, b))
  IN IF s1.art[c][b] = None THEN Emit(s1, <<"T", "no", 0, 0>>)
     ELSE Mutated(Emit(s1, <<"T", "ok", s1.art[c][b][1], s1.art[c][b][2]>>), c, b)
GetMut(s, c, b, ip) ==
  LET s1 == Discard(Begun(s), c, StrictDependents(s, c, b))
  IN [Demand([s1 EXCEPT !.gm = <<c, b>>, !.ip = ip], c, b) EXCEPT !.ip = FALSE]

Create(s, b)  == [Begun(s) EXCEPT !.held = @ \cup {b}]
DropH(s, b)   == [Begun(s) EXCEPT !.held = @ \ {b}]
Keep(s, c, b) == [Begun(s) EXCEPT !.kept = @ \cup {s.art[c][b][1]}]
Unkeep(s, t)  == [Begun(s) EXCEPT !.kept = @ \ {t}]

\* Slot b is free: there is no handle, and no cache remembers its builder.
Forgotten(s, b) == b \notin Alive(s) /\ \A c \in C : b \notin s.known[c]

-----------------------------------------------------------------------------
(* Steps of the running (innermost) user builder                             *)

RunB(s) == Top(s).b
RunC(s) == Top(s).c

Resolve(s, d, ip) ==
  [Demand(Track([Begun(s) EXCEPT !.ip = ip], RunC(s), RunB(s), d), RunC(s), d) EXCEPT !.ip = FALSE]
SetState(s, v) == [Begun(s) EXCEPT !.dyn[RunC(s)][RunB(s)] = <<10*RunB(s) + v, 0>>]
RetOk(s) ==
  LET s1 == Begun(s)
  IN Finish(UseFresh(s1), [k |-> "ok", t |-> Fresh(s1, RunB(s)), v |-> 0, from |-> RunB(s),
                              c |-> RunC(s)])
RetErr(s) == Finish(Begun(s), [k |-> "er", t |-> RunB(s), v |-> 0, from |-> RunB(s), c |-> RunC(s)])
Panic(s, n) == PanicTo(Begun(s), n)

UserFrames(s) == Cardinality({i \in 1..Len(s.stk) : Kind(s, s.stk[i].b) \in UserKinds})

\* A builder can only resolve what it or the user has a handle of, and daab is
\* about DAGs: it must not (transitively) be running already in that cache.
Resolvable(s, d) ==
  /\ d \in s.held \/ d \in s.p[RunB(s)].owns
  /\ \A i \in 1..Len(s.stk) : s.stk[i].b # d \/ s.stk[i].c # RunC(s)

\* The code of a builder may also use other caches than the one it is running for.
Usable(s, c) == \A i \in 1..Len(s.stk) : s.stk[i].c # c
=============================================================================
