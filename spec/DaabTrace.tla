------------------------------ MODULE DaabTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the library against DaabCore.  A trace     *)
(* file holds many runs; each begins with a line describing the program.    *)
(* Every further line is one step: the decision of the environment (`l`),   *)
(* the events that followed (`o`), the names of new artifacts (`n`), and,   *)
(* when no builder is running, the observed state (`x`).                    *)
(*                                                                          *)
(* A line that is no behaviour of the specification is reported, and the    *)
(* rest of its run is skipped.                                              *)
(***************************************************************************)
EXTENDS DaabObs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i, skip, bad, mon
vars == <<s, i, skip, bad, mon>>

ToSet(q) == SetOf(q)
ProgOf(line) ==
  [b \in B |-> IF b <= Len(line.p)
               THEN LET r == line.p[b] IN
                    [kind |-> r[1], inner |-> r[2], owns |-> ToSet(r[3]), aowns |-> ToSet(r[4]),
                     downs |-> ToSet(r[5]), def |-> r[6] = 1]
               ELSE NoProg]

Step(st, l) ==
  LET op == l[1] IN
  CASE op = "Get"            -> Get(st, l[2], l[3], l[4] = 1)
    [] op = "DynRead"        -> DynRead(st, l[2], l[3], l[4] = 1)
    [] op = "DynMut"         -> DynMut(st, l[2], l[3], l[5], l[4] = 1)
    [] op = "Invalidate"     -> Invalidate(st, l[2], l[3])
    [] op = "Purge"          -> Purge(st, l[2], l[3])
    [] op = "LookupMut"      -> LookupMut(st, l[2], l[3])
    [] op = "GetMut"         -> GetMut(st, l[2], l[3], l[4] = 1)
    [] op = "Keep"           -> Keep(st, l[2], l[3])
    [] op = "Unkeep"         -> Unkeep(st, l[2])
    [] op = "ClearArtifacts" -> ClearArtifacts(st, l[2])
    [] op = "ClearAll"       -> ClearAll(st, l[2])
    [] op = "Renew"          -> Renew(st, l[2])
    [] op = "Collect"        -> Collect(st, l[2])
    [] op = "Drop"           -> DropH(st, l[2])
    [] op = "Create"         -> Create(st, l[2])
    [] op = "Resolve"        -> Resolve(st, l[2], l[3] = 1)
    [] op = "SetState"       -> SetState(st, l[2])
    [] op = "RetOk"          -> RetOk(st)
    [] op = "RetErr"         -> RetErr(st)
    [] op = "Panic"          -> Panic(st, l[2])

CrossOps == {"Get", "DynRead", "DynMut", "Invalidate", "Purge", "ClearArtifacts", "ClearAll", "Renew"}
\* The environment must have been allowed to do that (else the recording is wrong).
BuilderOps == {"Resolve", "SetState", "RetOk", "RetErr", "Panic"}
Enabled(st, l) ==
  /\ (l[1] \in BuilderOps) => ~Idle(st)
  /\ l[1] \notin (BuilderOps \cup {"Drop", "Create"}) =>
       Idle(st) \/ (l[1] \in CrossOps /\ Usable(st, l[2]))
  /\ l[1] = "Resolve" => Resolvable(st, l[2])
  /\ l[1] = "Create" => l[2] \notin Alive(st) /\ BuilderOwns(st, l[2]) \subseteq st.held
  /\ l[1] \in {"Get", "DynRead", "DynMut", "Invalidate", "Purge", "LookupMut", "GetMut", "Keep"}
       => l[3] \in st.held

Events(out, ev) == IF ev THEN out ELSE SelectSeq(out, LAMBDA e : e[1] \notin {"DR", "DB", "DI", "DC"})

\* What differs between the observed state and the specification's.
Named(st) == {t \in LiveToks(st) : t % K # 0}
UserSlots(st) == {b \in B : Kind(st, b) \in UserKinds}
Diffs(st, x) ==
  LET CacheDiffs(c) ==
        {<<"count", c, 0, Cardinality(st.known[c]), x.c[c][1]>> : z \in
            IF Cardinality(st.known[c]) # x.c[c][1] THEN {1} ELSE {}}
        \cup UNION {
          LET r == x.c[c][2][j]  b == r[1] IN
            (IF (b \in st.known[c]) # (r[2] = 1)
             THEN {<<"known", c, b, IF b \in st.known[c] THEN 1 ELSE 0, r[2]>>} ELSE {})
            \cup (IF st.art[c][b][1] # r[3] THEN {<<"art", c, b, st.art[c][b][1], r[3]>>} ELSE {})
            \cup (IF st.art[c][b][1] = r[3] /\ st.art[c][b][2] # r[4]
                  THEN {<<"val", c, b, st.art[c][b][2], r[4]>>} ELSE {})
            \cup (IF st.dyn[c][b] # <<r[5], r[6]>>
                  THEN {<<"dyn", c, b, st.dyn[c][b][1], r[5]>>} ELSE {})
          : j \in 1..Len(x.c[c][2])}
      lt == ToSet(x.a)
      al == Alive(st)
  IN UNION {CacheDiffs(c) : c \in C}
     \cup {<<"live_art", 0, IF Origin(t) \in B THEN Origin(t) ELSE 0, t, 0>> : t \in Named(st) \ lt}
     \cup {<<"live_count", 0, 0, Cardinality(Named(st)), Cardinality(lt)>> : t \in lt \ Named(st)}
     \cup {<<"bld", 0, b, 1, 0>> : b \in (al \cap UserSlots(st)) \ ToSet(x.b)}
     \cup {<<"bld", 0, b, 0, 1>> : b \in (ToSet(x.b) \cap UserSlots(st)) \ al}
     \cup UNION {LET b == x.d[j][1]
                     e == Cardinality({c \in C : st.dyn[c][b] # NoDyn})
                 IN IF e # x.d[j][2] THEN {<<"live_dyn", 0, b, e, x.d[j][2]>>} ELSE {}
                 : j \in 1..Len(x.d)}
     \cup (IF x.m > Cardinality({b \in al \cup UNION {st.known[c] : c \in C} :
                                  Kind(st, b) \in {"user", "simple"}})
           THEN {<<"mem", 0, 0, 0, x.m>>} ELSE {})
     \cup {<<"kept", 0, 0, t, 0>> : t \in (st.kept \ {x.k[j][1] : j \in 1..Len(x.k)})
                                          \cup ({x.k[j][1] : j \in 1..Len(x.k)} \ st.kept)}
     \cup {<<"kept", 0, 0, x.k[j][1], x.k[j][2]>> : j \in {i2 \in 1..Len(x.k) : x.k[i2][2] \in 1..9}}
     \cup (IF x.z # 0 THEN {<<"double_drop", 0, 0, 0, x.z>>} ELSE {})

\* A collection may remove more unreachable builders at once than required.
RECURSIVE Needs(_, _)
Needs(dep, X) ==
  LET Y == X \cup {e[2] : e \in {f \in dep : f[1] \in X}} IN IF Y = X THEN X ELSE Needs(dep, Y)
Benign(st, l, d) ==
  /\ l[1] = "Collect"
  /\ LET c == l[2]
         need == Needs(st.dep[c], st.known[c] \cap Alive(st))
     IN /\ \A e \in d :
             \/ e[1] = "count" /\ e[2] = c /\ e[5] < e[4] /\ e[5] >= Cardinality(need)
             \/ e[1] \in {"live_dyn", "bld"} /\ e[5] < e[4] /\ e[3] \notin need
             \/ e[1] = "live_count" /\ e[5] < e[4]
             \/ e[1] = "live_art" /\ e[3] \notin need
        /\ \E e \in d : e[1] = "count"

Init == /\ s = InitState([b \in B |-> NoProg], {})
        /\ i = 1 /\ skip = TRUE /\ bad = 0
        /\ mon = MonInit([b \in B |-> NoProg], {})

Report(what, line, exp, d) ==
  PrintT(ToJson([what |-> what, line |-> i, l |-> line.l, exp |-> exp, act |-> line.o, obs |-> d]))

\* The monitors see every line, and report up to five lines of a run.
Monitor(line) ==
  IF line.l[1] = "Prog" THEN mon' = MonInit(ProgOf(line), ToSet(line.h))
  ELSE IF mon.n >= 5 THEN UNCHANGED mon
  ELSE LET r == MonStep(mon, line) IN
       /\ mon' = r.mo
       /\ IF r.rep = {} THEN TRUE ELSE
          PrintT(ToJson([what |-> "mon", line |-> i, l |-> line.l, exp |-> <<>>, act |-> line.o, obs |-> r.rep]))

Next ==
  /\ i <= Len(Trace)
  /\ Monitor(Trace[i])
  /\ i' = i + 1
  /\ LET line == Trace[i] IN
     IF line.l[1] = "Prog"
     THEN /\ s' = InitState(ProgOf(line), ToSet(line.h)) /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<s, skip, bad>>
     ELSE LET l == line.l IN
          IF ~Enabled(s, l)
          THEN Report("recording", line, <<>>, {}) /\ skip' = TRUE /\ bad' = bad + 1 /\ s' = s
          ELSE
            LET t == [Step([s EXCEPT !.nt = line.n], l) EXCEPT !.nt = <<>>]
                exp == Events(t.out, line.e = 1)
                idle == line.q = 1
                d == IF idle /\ Len(line.x.c) = M THEN Diffs(t, line.x) ELSE {}  \* (observing may have failed)
            IN IF exp # line.o
               THEN Report("out", line, exp, d) /\ skip' = TRUE /\ bad' = bad + 1 /\ s' = s
               ELSE IF idle # Idle(t)
               THEN Report("idle", line, exp, {}) /\ skip' = TRUE /\ bad' = bad + 1 /\ s' = s
               ELSE IF d # {}
               THEN IF Benign(s, l, d)
                    THEN skip' = TRUE /\ bad' = bad /\ s' = s
                    ELSE Report("obs", line, exp, d) /\ skip' = TRUE /\ bad' = bad + 1 /\ s' = s
               ELSE s' = t /\ UNCHANGED <<skip, bad>>

Spec == Init /\ [][Next]_vars

\* Invariants of the specification also hold along every recorded run.
KnownCovers ==
  Idle(s) => \A c \in C :
    /\ \A b \in B : s.art[c][b] # None => b \in s.known[c] /\ s.dyn[c][b] # NoDyn
    /\ \A e \in s.dep[c] : e[1] \in s.known[c] /\ e[2] \in s.known[c]
Coherent ==
  Idle(s) => \A c \in C : \A e \in s.src[c] : s.art[c][e[1]] # None => s.art[c][e[2]] # None

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
