------------------------------ MODULE DaabCache -----------------------------
(***************************************************************************)
(* The transition system: a most general user and most general builders     *)
(* drive M caches.  `lab` is the decision of the environment that led to    *)
(* the current state; what the library does in response is in s.out.        *)
(*                                                                          *)
(* Properties are stated on observations (artifacts, states, known set,     *)
(* callbacks), independently of how DaabCore computes the next state.       *)
(***************************************************************************)
EXTENDS DaabCore, TLC

CONSTANTS Prog,     \* the program: a record per builder slot
          Uses,     \* Uses[b]: the builders that b may resolve (a DAG)
          Ops,      \* enabled kinds of steps
          Vals,     \* values written to dynamic states
          Born      \* builders existing (with a handle) initially

VARIABLES s, lab
vars == <<s, lab>>

Init == s = InitState(Prog, Born) /\ lab = <<"Init">>

Do(l, t) == lab' = l /\ s' = t
On(op) == op \in Ops

IPs(c, b) ==  \* is an init panic possible when the state of b is needed
  IF On("InitPanic") /\ s.dyn[c][b] = NoDyn /\ Kind(s, b) = "user" THEN {FALSE, TRUE} ELSE {FALSE}
Bit(x) == IF x THEN 1 ELSE 0

UserStep ==
  /\ Idle(s)
  /\ \/ \E c \in C, b \in s.held :
          \/ On("Get") /\ \E ip \in IPs(c, b) : Do(<<"Get", c, b, Bit(ip)>>, Get(s, c, b, ip))
          \/ On("DynRead") /\ \E ip \in IPs(c, b) :
               Do(<<"DynRead", c, b, Bit(ip)>>, DynRead(s, c, b, ip))
          \/ On("DynMut") /\ \E ip \in IPs(c, b), v \in Vals :
               Do(<<"DynMut", c, b, Bit(ip), v>>, DynMut(s, c, b, v, ip))
          \/ On("Invalidate") /\ Do(<<"Invalidate", c, b>>, Invalidate(s, c, b))
          \/ On("Purge") /\ Do(<<"Purge", c, b>>, Purge(s, c, b))
          \/ On("Mut") /\ Do(<<"LookupMut", c, b>>, LookupMut(s, c, b))
          \/ On("Mut") /\ \E ip \in IPs(c, b) :
               Do(<<"GetMut", c, b, Bit(ip)>>, GetMut(s, c, b, ip))
          \/ On("Keep") /\ s.kept = {} /\ s.art[c][b] # None
               /\ Do(<<"Keep", c, b>>, Keep(s, c, b))
     \/ \E c \in C :
          \/ On("ClearArtifacts") /\ Do(<<"ClearArtifacts", c>>, ClearArtifacts(s, c))
          \/ On("ClearAll") /\ Do(<<"ClearAll", c>>, ClearAll(s, c))
          \/ On("Renew") /\ Do(<<"Renew", c>>, Renew(s, c))
          \/ On("Collect") /\ Do(<<"Collect", c>>, Collect(s, c))
     \/ On("Drop") /\ \E b \in s.held : Do(<<"Drop", b>>, DropH(s, b))
     \/ On("Drop") /\ \E b \in B : Forgotten(s, b) /\ BuilderOwns(s, b) \subseteq s.held
                                     /\ Do(<<"Create", b>>, Create(s, b))
     \/ On("Keep") /\ \E t \in s.kept : Do(<<"Unkeep", t>>, Unkeep(s, t))

BuilderStep ==
  /\ ~Idle(s)
  /\ LET b == RunB(s)  k == Kind(s, b)  c == RunC(s)
     IN \/ k \notin {"func", "func0"} /\ \E d \in Uses[b] : Resolvable(s, d) /\ \E ip \in IPs(c, d) :
             Do(<<"Resolve", d, Bit(ip)>>, Resolve(s, d, ip))
        \/ k \notin {"simple", "func0"} /\ On("SetState") /\ \E v \in Vals :
             Do(<<"SetState", v>>, SetState(s, v))
        \/ Do(<<"RetOk">>, RetOk(s))
        \/ k # "simple" /\ On("RetErr") /\ Do(<<"RetErr">>, RetErr(s))
        \/ On("Cross") /\ \E c2 \in {x \in C : Usable(s, x)} :
             \/ \E b2 \in s.held :
                  \/ \E ip \in IPs(c2, b2) : Do(<<"Get", c2, b2, Bit(ip)>>, Get(s, c2, b2, ip))
                  \/ On("DynRead") /\ \E ip \in IPs(c2, b2) :
                       Do(<<"DynRead", c2, b2, Bit(ip)>>, DynRead(s, c2, b2, ip))
                  \/ On("DynMut") /\ \E ip \in IPs(c2, b2), v \in Vals :
                       Do(<<"DynMut", c2, b2, Bit(ip), v>>, DynMut(s, c2, b2, v, ip))
                  \/ Do(<<"Invalidate", c2, b2>>, Invalidate(s, c2, b2))
                  \/ Do(<<"Purge", c2, b2>>, Purge(s, c2, b2))
             \/ Do(<<"ClearArtifacts", c2>>, ClearArtifacts(s, c2))
             \/ Do(<<"ClearAll", c2>>, ClearAll(s, c2))
             \/ On("Renew") /\ Do(<<"Renew", c2>>, Renew(s, c2))
        \/ On("DropIn") /\ \E d \in s.held \cap Uses[b] : Do(<<"Drop", d>>, DropH(s, d))
        \/ On("DropIn") /\ \E d \in Uses[b] : Forgotten(s, d) /\ BuilderOwns(s, d) \subseteq s.held
                                     /\ Do(<<"Create", d>>, Create(s, d))
        \/ On("Panic") /\ \E n \in 1..UserFrames(s) : Do(<<"Panic", n>>, Panic(s, n))

Next == UserStep \/ BuilderStep
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Projections                                                               *)

RECURSIVE Pow2(_), Mask(_), Sorted(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Mask(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Pow2(x - 1) + Mask(X \ {x})
Sorted(X) == IF X = {} THEN <<>>
             ELSE LET x == CHOOSE x \in X : \A y \in X : x <= y IN <<x>> \o Sorted(X \ {x})

Key == << [c \in C |-> << s.art[c], s.dyn[c], Mask(s.known[c]),
                          [b \in B |-> Mask({e[2] : e \in {f \in s.dep[c] : f[1] = b}})] >>],
          Mask(s.held), Sorted(s.kept),
          [i \in 1..Len(s.stk) |-> <<s.stk[i].b, s.stk[i].c>>], s.gm >>
KeySrc == <<Key, s.src>>

\* Printing the state graph for the replay into the library.
EmitState == PrintT(ToString(<<"S", Key, Mask(Alive(s)), Sorted(LiveToks(s))>>))
EmitEdge  == PrintT(ToString(<<"E", Key, lab', s'.out, Key'>>))

-----------------------------------------------------------------------------
(* State invariants                                                          *)

TypeOK ==
  /\ \A c \in C : s.known[c] \subseteq B /\ s.dep[c] \subseteq (B \X B)
  /\ s.held \subseteq B
  /\ \A i \in 1..Len(s.stk) : s.stk[i].b \in B

\* Everything remembered belongs to a known builder.
KnownCovers ==
  \A c \in C : \A b \in B :
    /\ s.art[c][b] # None => b \in s.known[c]
    /\ s.dyn[c][b] # NoDyn => b \in s.known[c]
    /\ \A e \in s.dep[c] : e[1] \in s.known[c] /\ e[2] \in s.known[c]

\* An artifact is never cached next to a missing artifact that it was made from.
Coherent ==
  \A c \in C : \A e \in s.src[c] : s.art[c][e[1]] # None => s.art[c][e[2]] # None
\* Stand-ins hold what the wrapped builder holds.
Faithful ==
  \A c \in C : \A b \in B :
    LET i == s.p[b].inner IN
    s.art[c][b] # None =>
      CASE Kind(s, b) \in {"fwd", "feign"} -> s.art[c][b] = s.art[c][i]
        [] Kind(s, b) = "clone" -> /\ s.art[c][i] # None
                                   /\ Origin(s.art[c][b][1]) = b
                                   /\ s.art[c][b][2] = s.art[c][i][2] \/ s.art[c][b][2] \in {8, 9}
        [] Kind(s, b) = "redeem" -> <<b, i>> \in s.src[c] => s.art[c][b] = s.art[c][i]
        [] Kind(s, b) = "config" -> s.art[c][b][2] = s.dyn[c][b][1] \/ s.art[c][b][2] \in {8, 9}
        [] Kind(s, b) = "const" -> s.art[c][b][1] = ConstTok(b)
        [] OTHER -> Origin(s.art[c][b][1]) = b

\* A cached artifact implies an initialised state; a running builder has no artifact.
HasState == \A c \in C : \A b \in B : s.art[c][b] # None => s.dyn[c][b] # NoDyn
RunningHasNone == \A i \in 1..Len(s.stk) : s.art[s.stk[i].c][s.stk[i].b] = None
NoRecursion == \A i, j \in 1..Len(s.stk) : s.stk[i] = s.stk[j] => i = j

\* C07: with all handles gone, repeated collection empties the cache.
RECURSIVE CollectN(_, _, _)
CollectN(t, c, n) == IF n = 0 THEN t ELSE CollectN(Collect(t, c), c, n - 1)
Unreachable(t, c) == t.known[c] \ Alive(t)
GcComplete ==
  Idle(s) => \A c \in C :
    LET t == CollectN(s, c, Cardinality(s.known[c]))
    IN \* whatever is needed by a builder that is still alive may stay
       \A b \in Unreachable(t, c) : \E u \in Dependents(t.dep[c], {b}) : u \in Alive(t)
GcComplete0 ==   \* ... and everything goes when the user keeps nothing at all
  Idle(s) => \A c \in C :
    LET t0 == [s EXCEPT !.held = {}, !.kept = {}]
        RECURSIVE All(_, _)
        All(t, n) == IF n = 0 THEN t
                     ELSE All(CollectN(t, c, 1), n - 1)
        t1 == All(t0, N)
    IN (M = 1) => t1.known[c] = {}

-----------------------------------------------------------------------------
(* Action properties                                                         *)

Outs(t, x) == {i \in 1..Len(t.out) : t.out[i][1] = x}
Is(x) == lab'[1] = x
LC == lab'[2]      \* cache and builder of the user's last step
LB == lab'[3]

\* C01: a builder runs only if its artifact is missing, at most once per request,
\* and an artifact changes identity only by being discarded first.
BuildOnce ==
  [][ /\ \A i \in Outs(s', "B") : LET b == s'.out[i][2] IN
           /\ s.art[Top(s').c][b] = None \/ Is("GetMut")
           /\ \A j \in Outs(s', "B") : s'.out[j][2] = b => i = j
      /\ \A c \in C : \A b \in B :
           (s.art[c][b] # None /\ s'.art[c][b] # None) => s'.art[c][b][1] = s.art[c][b][1]
    ]_vars
\* ... and a request for a cached artifact yields it at once.
Shared ==
  [][ /\ (Is("Get") /\ s.art[LC][LB] # None)
           => s'.out = << <<IF Idle(s) THEN "T" ELSE "R", "ok", s.art[LC][LB][1], s.art[LC][LB][2]>> >> /\ s'.art = s.art
      /\ (Is("Resolve") /\ s.art[RunC(s)][lab'[2]] # None)
           => LET a == s.art[RunC(s)][lab'[2]] IN
              s'.out = << <<"DR", RunB(s), lab'[2]>>, <<"R", "ok", a[1], a[2]>> >>
    ]_vars

\* Does x transitively (by artifacts actually handed out) consume y?
Consumes(t, c, x, y) == x \in Dependents(t.src[c], {y})
Targeted == Is("Invalidate") \/ Is("Purge") \/ Is("DynMut")

\* C02: no transitive consumer survives.
InvalidateAll ==
  [][ Targeted => \A x \in B : Consumes(s, LC, x, LB) => s'.art[LC][x] = None ]_vars
\* C03: nobody who has not asked for it is discarded.
InvalidateOnly ==
  [][ /\ Targeted =>
           \A x \in B : s'.art[LC][x] # s.art[LC][x] => x \in Dependents(s.dep[LC], {LB})
      /\ \A c \in C : \A x \in B :
           (s.art[c][x] # None /\ s'.art[c][x] = None)
              => lab'[1] \in {"Invalidate", "Purge", "DynMut", "ClearArtifacts", "ClearAll",
                              "Renew", "Collect", "LookupMut", "GetMut"}
    ]_vars
\* C04: who may change a dynamic state, and how.
DynLife ==
  [][ \A c \in C : \A b \in B :
        /\ (s.dyn[c][b] = NoDyn /\ s'.dyn[c][b] # NoDyn /\ Kind(s, b) = "user")
             => \E i \in Outs(s', "I") : s'.out[i] = <<"I", b>>
        /\ (s.dyn[c][b] # NoDyn /\ s'.dyn[c][b] = NoDyn)
             => \/ Is("Purge") /\ LC = c /\ LB = b
                \/ (Is("ClearAll") \/ Is("Renew")) /\ LC = c
                \/ Is("Collect") /\ LC = c /\ b \notin Alive(s)
        /\ (s.dyn[c][b] # NoDyn /\ s'.dyn[c][b] # NoDyn /\ s'.dyn[c][b] # s.dyn[c][b])
             => \/ Is("DynMut") /\ LC = c /\ LB = b
                \/ Is("SetState") /\ RunC(s) = c /\ RunB(s) = b
                \/ Kind(s, b) = "redeem"
        /\ \A i \in Outs(s', "I") : s'.out[i][2] = b /\ M = 1 => s.dyn[c][b] = NoDyn
    ]_vars
\* C05: who becomes known and who is forgotten.
KnownLife ==
  [][ \A c \in C : \A b \in B :
        /\ (b \notin s.known[c] /\ b \in s'.known[c])
             => lab'[1] \in {"Get", "GetMut", "DynRead", "DynMut", "Resolve"}
        /\ (b \in s.known[c] /\ b \notin s'.known[c])
             => \/ Is("Purge") /\ LC = c /\ LB = b
                \/ lab'[1] \in {"ClearAll", "Renew", "Collect"} /\ LC = c
        /\ ((Is("Get") \/ Is("DynRead") \/ Is("DynMut")) /\ LC = c /\ LB = b) => b \in s'.known[c]
        /\ Is("Resolve") => lab'[2] \in s'.known[RunC(s)]
    ]_vars
\* C06/C07: what one collection removes.
GcStep ==
  [][ Is("Collect") =>
        /\ \A b \in Alive(s) : /\ s'.art[LC][b] = s.art[LC][b]
                               /\ s'.dyn[LC][b] = s.dyn[LC][b]
                               /\ (b \in s'.known[LC]) = (b \in s.known[LC])
        /\ \A b \in s.known[LC] :
             (\E x \in s'.known[LC] : x # b /\ x \in Dependents(s.dep[LC], {b})) => b \in s'.known[LC]
        /\ \A b \in s.known[LC] : (b \notin Alive(s) /\ Dependents(s.dep[LC], {b}) = {b})
                => b \notin s'.known[LC] /\ s'.art[LC][b] = None /\ s'.dyn[LC][b] = NoDyn
    ]_vars
\* C08: an artifact appears only with a successful return, an error or panic adds none.
FailureAtomic ==
  [][ /\ (Is("RetErr") \/ Is("Panic")) =>
           \A c \in C : \A b \in B : Kind(s, b) \in UserKinds => s'.art[c][b] = s.art[c][b]
      /\ Is("RetErr") => s'.art[RunC(s)][RunB(s)] = None
      /\ Is("Panic") => s'.dyn = s.dyn /\ s'.art = s.art
      /\ \A c \in C : \A b \in B :
           (Kind(s, b) \in UserKinds /\ s.art[c][b] = None /\ s'.art[c][b] # None)
             => Is("RetOk") /\ RunB(s) = b /\ RunC(s) = c
    ]_vars
\* C09: a builder created anew has no past.
NewIsFresh ==
  [][ Is("Create") => \A c \in C : /\ s.art[c][lab'[2]] = None /\ s.dyn[c][lab'[2]] = NoDyn
                                   /\ lab'[2] \notin s.known[c]
                                   /\ \A e \in s.dep[c] : lab'[2] \notin {e[1], e[2]} ]_vars
\* C10
Clearing ==
  [][ /\ Is("ClearArtifacts") => /\ s'.art[LC] = [b \in B |-> None] /\ s'.dep[LC] = {}
                                 /\ s'.dyn = s.dyn /\ s'.known = s.known
      /\ (Is("ClearAll") \/ Is("Renew")) =>
           /\ s'.art[LC] = [b \in B |-> None] /\ s'.dyn[LC] = [b \in B |-> NoDyn]
           /\ s'.dep[LC] = {} /\ s'.known[LC] = {}
      /\ Is("Purge") => /\ s'.art[LC][LB] = None /\ s'.dyn[LC][LB] = NoDyn
                        /\ s'.known[LC] = s.known[LC] \ {LB}
                        /\ \A b \in B \ {LB} : s'.dyn[LC][b] = s.dyn[LC][b]
                        /\ \A e \in s'.dep[LC] : LB \notin {e[1], e[2]}
    ]_vars
\* C11
MutAccess ==
  [][ /\ Is("LookupMut") \/ Is("GetMut") =>
           /\ \A x \in B \ {LB} : Consumes(s, LC, x, LB) => s'.art[LC][x] = None
           /\ s.art[LC][LB] # None => s'.art[LC][LB][1] = s.art[LC][LB][1]
           /\ \A x \in B : (s.art[LC][x] # None /\ s'.art[LC][x] = None)
                  => x \in Dependents(s.dep[LC], {LB}) \ {LB}
      /\ Is("LookupMut") => s'.dyn = s.dyn /\ s'.known = s.known
    ]_vars
\* C12: one doctor event per occurrence, and none else.
DocEvents ==
  [][ /\ Cardinality(Outs(s', "DI")) = (IF Targeted THEN 1 ELSE 0)
      /\ Cardinality(Outs(s', "DC")) = (IF Is("ClearAll") THEN 1 ELSE 0)
      /\ \A i \in Outs(s', "DB") : s'.out[i][3] \in {s'.art[c][s'.out[i][2]][1] : c \in C}
      /\ \A c \in C : \A b \in B :
           (s.art[c][b] = None /\ s'.art[c][b] # None) =>
              Cardinality({i \in Outs(s', "DB") : s'.out[i][2] = b}) = 1
      /\ lab'[1] \in {"Collect", "ClearArtifacts", "Renew", "Drop", "Create", "LookupMut", "DynRead",
                      "Keep", "Unkeep", "RetErr", "SetState", "Panic"}
           => (Outs(s', "DR") \cup Outs(s', "DI") \cup Outs(s', "DC") = {})
    ]_vars
\* C17: what somebody still holds or caches is alive; what was released never comes back.
KeptLive == /\ s.kept \subseteq LiveToks(s)
            /\ \A c \in C : \A b \in B : s.art[c][b] # None => s.art[c][b][1] \in LiveToks(s)
NeverRevived ==
  [][ /\ \A t \in LiveToks(s') \ LiveToks(s) :
           \/ t = ConstTok(Origin(t))
           \/ lab'[1] \in {"Get", "GetMut", "Resolve", "RetOk"}
           \/ lab'[1] \in {"RetErr", "Panic"} /\ \E b \in B : Kind(s, b) = "redeem"
      /\ \A t \in s.kept \ s'.kept : Is("Unkeep") /\ lab'[2] = t
      /\ Is("RetOk") /\ Kind(s, RunB(s)) \in UserKinds =>
           \A i \in Outs(s', "DB") : s'.out[i][2] = RunB(s) => s'.out[i][3] \notin LiveToks(s)
    ]_vars
\* C16
Isolation ==
  [][ \A c \in C :
        LET here == IF lab'[1] \in {"Resolve", "SetState", "RetOk", "RetErr", "Panic"} THEN RunC(s)
                    ELSE IF lab'[1] \in {"Drop", "Create", "Unkeep"} THEN 0 ELSE LC
        IN c # here => /\ s'.art[c] = s.art[c] /\ s'.dyn[c] = s.dyn[c]
                       /\ s'.known[c] = s.known[c] /\ s'.dep[c] = s.dep[c]
    ]_vars
\* C19
Redeeming ==
  [][ \A c \in C : \A b \in B : Kind(s, b) = "redeem" =>
        /\ \A i \in 1..Len(s'.out) : (s'.out[i][1] = "T" /\ s'.out[i][2] = "er")
              => ~(lab'[1] = "Get" /\ LB = b)
        /\ (s.art[c][b] = None /\ s'.art[c][b] # None) =>
              s'.art[c][b] = IF s'.art[c][s.p[b].inner] # None THEN s'.art[c][s.p[b].inner]
                             ELSE <<s.dyn[c][b][2], s.dyn[c][b][1]>>
        /\ (s'.dyn[c][b] # s.dyn[c][b] /\ s'.dyn[c][b] # NoDyn /\ s.dyn[c][b] # NoDyn /\ ~Is("DynMut"))
              => s'.dyn[c][b] = <<s'.art[c][b][2], s'.art[c][b][1]>>
    ]_vars
=============================================================================
