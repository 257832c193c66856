------------------------------- MODULE DaabObs -------------------------------
(***************************************************************************)
(* The listed properties as monitors of a recorded execution.               *)
(*                                                                          *)
(* DaabTrace compares a recording with the state that DaabCore computes,    *)
(* and has to stop at the first difference.  The monitors here need no       *)
(* computed state: each relates an observation to the previous one, to the  *)
(* steps in between, and to what has been handed out before.  So they judge *)
(* a whole recording, also what an execution does after it has gone wrong    *)
(* for the first time, and name the property that is violated.              *)
(*                                                                          *)
(* Everything between two observations is a *span*: one step of the user    *)
(* (`l`) and the steps of the builders which ran for it.  Caches that a      *)
(* running builder has used on its own account (`cr`) are only subject to   *)
(* the monitors that hold for any number of operations.                     *)
(***************************************************************************)
EXTENDS DaabCore, TLC

SetOf(q) == {q[j] : j \in 1..Len(q)}
NoRow == <<0, 0, 0, 0, -1, 0>>     \* builder, known, artifact, content, state, remembered artifact
NoSpan == [l |-> <<"Begin">>, cr |-> {}, set |-> {}, ini |-> {}, blt |-> <<>>, res |-> {}, got |-> {},
           bad |-> FALSE, ip |-> FALSE]

MonInit(prog, held) ==
  [ p    |-> prog, held |-> held, kept |-> {},
    stk  |-> <<>>,                    \* running builders <<b,c>>
    reqs |-> <<>>,                    \* open requests [d, c, depth]
    ok   |-> FALSE,                   \* there is a previous observation
    cnt  |-> [c \in C |-> 0],
    row  |-> [c \in C |-> [b \in {} |-> NoRow]],
    uses |-> [c \in C |-> [b \in B |-> {}]],   \* <<d,t>>: the last build of b was given t by d
    dep  |-> [c \in C |-> {}],        \* a superset of the dependencies
    old  |-> [c \in C |-> {}],        \* what clearing and purging have removed from it
    fail |-> [c \in C |-> {}],        \* builders whose build has failed
    col  |-> [c \in C |-> 0],         \* consecutive collections
    sp   |-> NoSpan,
    n    |-> 0 ]

Rows(x, c) ==
  LET q == x.c[c][2] IN
  [b \in {q[j][1] : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = b]]

Wrap(mo) == {<<w, mo.p[w].inner>> : w \in {b \in B : mo.p[b].inner # 0}}
RECURSIVE Chain(_, _)
Chain(mo, b) == {b} \cup (IF mo.p[b].inner = 0 THEN {} ELSE Chain(mo, mo.p[b].inner))
RECURSIVE Base(_, _)     \* what a transparent wrapper finally stands for
Base(mo, b) == IF mo.p[b].kind \in {"fwd", "feign", "clone"} THEN Base(mo, mo.p[b].inner) ELSE b

NoDoc(q) == SelectSeq(q, LAMBDA e : e[1] \notin {"DR", "DB", "DI", "DC"})
CountE(q, k) == Cardinality({j \in 1..Len(q) : q[j][1] = k})

\* What the artifact t of d, delivered in cache c, has been made from.
RECURSIVE From(_, _, _, _)
From(mo, c, d, t) ==
  LET k == mo.p[d].kind IN
  {<<d, t>>}
  \cup (CASE k \in {"fwd", "feign"} -> From(mo, c, mo.p[d].inner, t)
          [] k \in UserKinds -> IF N <= 24 THEN mo.uses[c][d] ELSE {}
          [] OTHER -> {})

-----------------------------------------------------------------------------
(* Following the events                                                      *)

Depth(mo) == Len(mo.stk)
\* An answer arrives at the running builder or the user: its request is over.
Answer(mo, e) ==
  LET k == Depth(mo)
      js == {j \in 1..Len(mo.reqs) : mo.reqs[j].depth = k}
  IN IF js = {} THEN mo
     ELSE LET j == CHOOSE x \in js : \A y \in js : x >= y
              r == mo.reqs[j]
              m1 == [mo EXCEPT !.reqs = SubSeq(@, 1, j - 1)]
          IN IF e[2] # "ok" THEN [m1 EXCEPT !.sp.bad = TRUE]
             ELSE LET m2 == [m1 EXCEPT !.sp.got = @ \cup {<<r.c, r.d, e[3]>>}]
                  IN IF k = 0 \/ e[1] # "R" \/ mo.stk[k][2] # r.c THEN m2   \* (its own requests only)
                     ELSE [m2 EXCEPT !.uses[r.c][mo.stk[k][1]] = @ \cup From(mo, r.c, r.d, e[3])]

Event(mo, e) ==
  CASE e[1] = "B" ->
         LET c == IF mo.reqs = <<>> THEN 1 ELSE mo.reqs[Len(mo.reqs)].c
         IN [mo EXCEPT !.stk = Append(@, <<e[2], c>>), !.uses[c][e[2]] = {},
                       !.sp.blt = Append(@, <<c, e[2]>>)]
    [] e[1] = "I" ->
         [mo EXCEPT !.sp.ini = @ \cup {<<IF mo.reqs = <<>> THEN 1 ELSE mo.reqs[Len(mo.reqs)].c, e[2]>>}]
    [] e[1] \in {"R", "T"} -> Answer(mo, e)
    [] OTHER -> mo

RECURSIVE Events_(_, _)
Events_(mo, q) == IF q = <<>> THEN mo ELSE Events_(Event(mo, Head(q)), Tail(q))

PopN(mo, n) ==
  LET k == IF n > Depth(mo) THEN 0 ELSE Depth(mo) - n
  IN [mo EXCEPT !.stk = SubSeq(@, 1, k), !.reqs = SelectSeq(@, LAMBDA r : r.depth <= k)]

Asks == {"Get", "GetMut", "DynRead", "DynMut"}
Requested(mo, d, c) ==
  [mo EXCEPT !.reqs = Append(@, [d |-> d, c |-> c, depth |-> Depth(mo)]),
             !.sp.res = @ \cup {<<c, x>> : x \in Chain(mo, d)}]

Failed(mo, n) ==
  [mo EXCEPT !.sp.bad = TRUE,
             !.fail = [c \in C |-> @[c] \cup {mo.stk[j][1] : j \in {i \in 1..Depth(mo) :
                                                 i > Depth(mo) - n /\ mo.stk[i][2] = c}}]]

\* The decision itself.
Decide(mo0, l) ==
  LET op == l[1]
      top == Depth(mo0)
      inner == top > 0
      mo == IF inner THEN mo0 ELSE [mo0 EXCEPT !.sp = [NoSpan EXCEPT !.l = l], !.reqs = <<>>]
      m1 == IF inner /\ op \notin {"Resolve", "SetState", "RetOk", "RetErr", "Panic", "Drop", "Create"}
            THEN [mo EXCEPT !.sp.cr = @ \cup {l[2]}] ELSE mo
      u == mo.stk[top][1]
      c == mo.stk[top][2]
  IN CASE op \in Asks -> [Requested(m1, l[3], l[2]) EXCEPT !.sp.ip = @ \/ l[4] = 1]
       [] op = "Resolve" ->
            [Requested(m1, l[2], c) EXCEPT !.sp.ip = @ \/ l[3] = 1, !.dep[c] = @ \cup {<<u, l[2]>>}]
       [] op = "SetState" ->
            [m1 EXCEPT !.sp.set = {x \in @ : x[1] # c \/ x[2] # u} \cup {<<c, u, 10 * u + l[2]>>}]
       [] op = "RetOk" -> PopN(m1, 1)
       [] op = "RetErr" -> PopN(Failed(m1, 1), 1)
       [] op = "Panic" -> PopN(Failed(m1, l[2]), l[2])
       [] op = "Drop" -> [m1 EXCEPT !.held = @ \ {l[2]}]
       [] op = "Create" -> [m1 EXCEPT !.held = @ \cup {l[2]}]
       [] op = "Keep" -> [m1 EXCEPT !.kept = @ \cup
              (IF m1.ok /\ l[3] \in DOMAIN m1.row[l[2]] THEN {m1.row[l[2]][l[3]][3]} ELSE {})]
       [] op = "Unkeep" -> [m1 EXCEPT !.kept = @ \ {l[2]}]
       [] OTHER -> m1

-----------------------------------------------------------------------------
(* Monitors of one line: a report is <<property, what, cache, builder, value>> *)

Rep(ps, what, c, b, v) == {<<p, what, c, b, v>> : p \in ps}
If(cond, r) == IF cond THEN r ELSE {}

\* mo: before the decision; m1: after it; m2: after the events.
LineReports(mo, m1, m2, line) ==
  LET l == line.l  op == l[1]
      q == NoDoc(line.o)
      o == line.o
      top == Depth(mo)
      idle0 == top = 0
      Fst == IF q = <<>> THEN <<"none", "", 0, 0>> ELSE q[1]
      panics == \E j \in 1..Len(q) : q[j][1] \in {"R", "T"} /\ q[j][2] = "pa"
      Cached(c, b) == mo.ok /\ b \in DOMAIN mo.row[c] /\ mo.row[c][b][3] # 0
      \* Nobody but this span has touched cache c since the observation.
      Fresh1(c) == c \notin m1.sp.cr
      main == IF m1.sp.l[1] \in Asks THEN m1.sp.l[2] ELSE 0
      bs == {j \in 1..Len(q) : q[j][1] = "B"}
      simple == \A b \in B : mo.p[b].kind \notin (WrapperKinds \cup LeafKinds)
      tb == IF top > 0 THEN mo.stk[top][1] ELSE 0
      tc == IF top > 0 THEN mo.stk[top][2] ELSE 0
      asked == {j \in 1..Len(m1.reqs) : m1.reqs[j].depth = Depth(m1)}
      req == m1.reqs[CHOOSE j \in asked : \A k \in asked : j >= k].d
  IN
  \* Operations that always complete.
  If(panics /\ op = "Invalidate", Rep({"C02"}, "panic", l[2], l[3], 0))
  \cup If(panics /\ op = "Purge", Rep({"C02", "C10"}, "panic", l[2], l[3], 0))
  \cup If(panics /\ op = "DynMut" /\ l[4] = 0, Rep({"C02", "C04"}, "panic", l[2], l[3], 0))
  \cup If(panics /\ op = "DynRead" /\ l[4] = 0, Rep({"C04"}, "panic", l[2], l[3], 0))
  \cup If(panics /\ op = "LookupMut", Rep({"C11"}, "panic", l[2], l[3], 0))
  \cup If(panics /\ op = "Collect", Rep({"C06"}, "panic", l[2], 0, 0))
  \cup If(panics /\ op \in {"ClearArtifacts", "ClearAll", "Renew"}, Rep({"C10"}, "panic", l[2], 0, 0))
  \* What the user is handed for a cached artifact.
  \cup If(op = "Get" /\ idle0 /\ Cached(l[2], l[3]) /\
          q # <<<<"T", "ok", mo.row[l[2]][l[3]][3], mo.row[l[2]][l[3]][4]>>>>,
          Rep({"C01"}, "not the cached artifact", l[2], l[3], mo.row[l[2]][l[3]][3]))
  \cup If(op \in {"LookupMut", "GetMut"} /\ idle0 /\ Cached(l[2], l[3]) /\
          q # <<<<"T", "ok", mo.row[l[2]][l[3]][3], mo.row[l[2]][l[3]][4]>>>>,
          Rep({"C11"}, "not the cached artifact", l[2], l[3], mo.row[l[2]][l[3]][3]))
  \cup If(op = "LookupMut" /\ idle0 /\ mo.ok /\ l[3] \in DOMAIN mo.row[l[2]] /\ ~Cached(l[2], l[3]) /\
          q # <<<<"T", "no", 0, 0>>>>, Rep({"C11"}, "found something", l[2], l[3], 0))
  \* An uncached artifact is built, once.
  \cup If(op \in {"Get", "GetMut"} /\ idle0 /\ mo.ok /\ l[4] = 0 /\ l[3] \in DOMAIN mo.row[l[2]] /\ ~Cached(l[2], l[3])
          /\ mo.p[l[3]].kind \in UserKinds /\ ~(\E j \in bs : q[j][2] = l[3] /\ \A k \in 1..(j-1) : q[k][1] = "I"),
          Rep({"C01"} \cup (IF op = "GetMut" THEN {"C11"} ELSE {}), "not built", l[2], l[3], 0))
  \* Inside builders, too.
  \cup If(op = "Resolve" /\ m1.sp.l[1] = "Get" /\ tc = main /\ Fresh1(tc) /\ Cached(tc, l[2]) /\
          q # <<<<"R", "ok", mo.row[tc][l[2]][3], mo.row[tc][l[2]][4]>>>>,
          Rep({"C01"}, "not the cached artifact", tc, l[2], mo.row[tc][l[2]][3]))
  \cup If(op = "Resolve" /\ tc = main /\ Fresh1(tc) /\ \E g \in mo.sp.got : g[1] = tc /\ g[2] = l[2] /\
          ~(Len(q) = 1 /\ q[1][1] = "R" /\ q[1][2] = "ok" /\ q[1][3] = g[3]),
          Rep({"C01"}, "not the cached artifact", tc, l[2], 0))
  \* Answers.
  \cup If(op = "RetOk" /\ asked # {} /\ req = tb /\
          ~(Fst[1] \in {"R", "T"} /\ Fst[2] = "ok" /\ Fst[3] \in SetOf(line.n)),
          Rep({"C01"}, "not the artifact built", tc, tb, 0))
  \cup If(op = "RetErr" /\ asked # {} /\ Base(mo, req) = tb /\
          ~(Fst[1] \in {"R", "T"} /\ Fst[2] = "er" /\ Fst[3] = tb),
          Rep({"C08"} \cup (IF req # tb THEN {"C15"} ELSE {}), "not that error", tc, tb, 0))
  \cup If(op = "Panic" /\ ~(Fst[1] \in {"R", "T"} /\ Fst[2] = "pa"),
          Rep({"C08"}, "not that panic", tc, tb, 0))
  \cup If(op \in {"RetErr", "Resolve", "Get", "RetOk"} /\ asked # {} /\ mo.p[req].kind = "redeem" /\ Fst[1] \in {"R", "T"} /\ Fst[2] = "er",
          Rep({"C19"}, "an error", tc, req, 0))
  \* Doctor.
  \cup If(line.e = 1 /\ CountE(o, "DI") # (IF op \in {"Invalidate", "Purge", "DynMut"} THEN 1 ELSE 0),
          Rep({"C12"}, "DI", 0, 0, CountE(o, "DI")))
  \cup If(line.e = 1 /\ op \in {"Invalidate", "Purge", "DynMut"} /\ ~\E j \in 1..Len(o) : o[j] = <<"DI", l[3]>>,
          Rep({"C12"}, "DI", 0, l[3], 0))
  \cup If(line.e = 1 /\ CountE(o, "DC") # (IF op = "ClearAll" THEN 1 ELSE 0),
          Rep({"C12"}, "DC", 0, 0, CountE(o, "DC")))
  \cup If(line.e = 1 /\ op = "Resolve" /\ (o = <<>> \/ o[1] # <<"DR", tb, l[2]>>),
          Rep({"C12"}, "DR", 0, l[2], 0))
  \cup If(line.e = 1 /\ simple /\ CountE(o, "DR") # (IF op = "Resolve" THEN 1 ELSE 0),
          Rep({"C12"}, "DR", 0, 0, CountE(o, "DR")))
  \cup If(line.e = 1 /\ simple /\ CountE(o, "DB") # (IF op = "RetOk" THEN 1 ELSE 0),
          Rep({"C12"}, "DB", 0, 0, CountE(o, "DB")))
  \cup If(line.e = 1 /\ op = "RetOk" /\ ~\E j \in 1..Len(o) : o[j][1] = "DB" /\ o[j][2] = tb /\ o[j][3] \in SetOf(line.n),
          Rep({"C12"}, "DB", 0, tb, 0))
  \* State seen by a build.
  \cup UNION {
        LET e == q[j]  b == e[2]
            c == m2.sp.blt[Len(m2.sp.blt)][1]
            sets == {x \in m1.sp.set : x[1] = c /\ x[2] = b}
        IN IF Cardinality(bs) # 1 \/ c # main \/ ~Fresh1(c) \/ m1.sp.l[1] = "DynMut" THEN {}
           ELSE IF sets # {} THEN If(\A x \in sets : x[3] # e[3], Rep({"C04"}, "build sees", c, b, e[3]))
           ELSE IF <<c, b>> \in m2.sp.ini THEN If(e[3] # 10 * b + 1, Rep({"C04"}, "build sees", c, b, e[3]))
           ELSE If(mo.ok /\ b \in DOMAIN mo.row[c] /\ mo.row[c][b][5] # -1 /\ mo.row[c][b][5] # e[3],
                   Rep({"C04"}, "build sees", c, b, e[3])) : j \in bs}
  \cup UNION {
        LET b == q[j][2] IN
        If(mo.ok /\ main # 0 /\ Fresh1(main) /\ <<main, b>> \in (m2.sp.ini \ mo.sp.ini) /\ b \in DOMAIN mo.row[main]
           /\ mo.row[main][b][5] # -1, Rep({"C04"}, "initialised again", main, b, 0))
        : j \in {k \in 1..Len(q) : q[k][1] = "I"}}
  \* The harness itself reports what no program may ever see.
  \cup UNION {
        LET k == o[j][2] IN
        Rep(CASE k \in {1, 5} -> {"C08"} [] k \in {2, 3, 4} -> {"C12", "C14"} [] k = 6 -> {"C04"}
              [] OTHER -> {"C01", "C04", "C05"} \cup (IF op = "Create" THEN {"C09"} ELSE {}), "X", 0, 0, k) : j \in {i \in 1..Len(o) : o[i][1] = "X"}}

-----------------------------------------------------------------------------
(* Monitors of an observation                                                *)

ObsReports(mo, x) ==
  LET sp == mo.sp  l == sp.l  op == l[1]
      HasC == op \notin {"Drop", "Create", "Unkeep", "Begin"}
      mc == IF HasC THEN l[2] ELSE 0
      tgt == IF op \in {"Get", "GetMut", "LookupMut", "DynRead", "DynMut", "Invalidate", "Purge", "Keep"}
             THEN l[3] ELSE 0
      new == TLCEval([c \in C |-> TLCEval(Rows(x, c))])
      Targeted == op \in {"Invalidate", "Purge", "DynMut"}
      Muts == op \in {"LookupMut", "GetMut"}
      Clears == op \in {"ClearArtifacts", "ClearAll", "Renew"}
      Why == (CASE Targeted -> {"C02"} [] Muts -> {"C11"} [] Clears -> {"C10"} [] op = "Collect" -> {"C06"}
                [] op = "Create" -> {"C09"} [] OTHER -> {"C01", "C02"})
             \cup (IF op = "Purge" THEN {"C10"} ELSE {})
      Both(c) == DOMAIN new[c] \cap DOMAIN mo.row[c]
      \* --- any cache, any number of operations
      Coherent1(c, rows) == {<<u, g>> \in UNION {{<<u, g>> : g \in mo.uses[c][u]} : u \in {v \in DOMAIN rows : rows[v][3] # 0}} :
                               g[1] \in DOMAIN rows /\ rows[g[1]][3] # g[2]}
      Always(c) ==
        LET rows == new[c] IN
        UNION {LET u == e[1] d == e[2][1] IN
               Rep(Why \cup (IF <<u, d>> \in mo.old[c] THEN {"C10"} ELSE {})
                       \cup (IF u \in mo.fail[c] \/ \E y \in mo.dep[c] : y[1] = u /\ y[2] \in mo.fail[c]
                             THEN {"C08"} ELSE {})
                       \cup (IF mo.p[d].kind \in WrapperKinds THEN {"C15"} ELSE {}), "stale", c, u, d)
               : e \in Coherent1(c, rows) \ (IF mo.ok THEN Coherent1(c, mo.row[c]) ELSE {})}
        \cup UNION {
          LET r == rows[b]  k == mo.p[b].kind IN
          If(r[3] # 0 /\ r[2] = 0, Rep({"C05"}, "cached but unknown", c, b, r[3]))
          \cup If(r[3] # 0 /\ r[5] = -1, Rep({"C04"}, "cached but no state", c, b, r[3]))
          \cup If(r[3] # 0 /\ r[3] % K # 0 /\ r[3] \notin SetOf(x.a), Rep({"C17"}, "released", c, b, r[3]))
          \cup If(r[6] > 0 /\ r[6] % K # 0 /\ r[6] \notin SetOf(x.a), Rep({"C17"}, "released", c, b, r[6]))
          \cup If(r[3] # 0 /\ k = "const" /\ r[3] # ConstTok(b),
                    Rep({"C15"} \cup (IF Origin(r[3]) \in B \ {b} THEN {"C09"} ELSE {}), "not the constant", c, b, r[3]))
          \cup If(r[3] # 0 /\ k \in {"fwd", "feign"} /\ mo.p[b].inner \in DOMAIN rows /\
                  rows[mo.p[b].inner][3] # r[3], Rep({"C15"}, "not the inner artifact", c, b, r[3]))
          \cup If(r[3] # 0 /\ k = "redeem" /\ r[6] # r[3], Rep({"C19"}, "not remembered", c, b, r[3]))
          \cup If(r[3] # 0 /\ k \in UserKinds /\ Origin(r[3]) # b, Rep({"C01", "C09"}, "of another builder", c, b, r[3]))
          : b \in DOMAIN rows}
        \cup If(x.c[c][1] < Cardinality({b \in DOMAIN rows : rows[b][2] = 1}), Rep({"C05"}, "count", c, 0, x.c[c][1]))
      \* --- caches that were not touched
      Untouched(c) ==
        UNION {If(new[c][b] # mo.row[c][b], Rep(
                    IF HasC THEN {"C16"} ELSE IF op = "Create" THEN {"C09"} ELSE {"C05", "C17"}, "changed", c, b, 0))
               : b \in Both(c)}
        \cup If(x.c[c][1] # mo.cnt[c], Rep(IF HasC THEN {"C16"} ELSE IF op = "Create" THEN {"C09", "C05"} ELSE {"C05"},
                                          "count", c, 0, x.c[c][1]))
      \* --- the cache of the operation
      c == mc
      P(b) == mo.row[c][b]
      Q(b) == new[c][b]
      after == IF Targeted \/ Muts THEN Dependents(mo.dep[c] \cup Wrap(mo), {tgt}) ELSE {}
      aold  == IF Targeted \/ Muts THEN Dependents(mo.dep[c] \cup mo.old[c] \cup Wrap(mo), {tgt}) ELSE {}
      Requests == op \in {"Get", "GetMut", "DynRead", "Keep"}
      SetIn(b) == {s \in sp.set : s[1] = c /\ s[2] = b}
      Panicked == sp.bad
      Art(b) ==
        IF op \in {"ClearArtifacts", "ClearAll", "Renew"} THEN If(Q(b)[3] # 0, Rep({"C10"}, "kept", c, b, Q(b)[3]))
        ELSE IF Targeted /\ b = tgt
             THEN If(Q(b)[3] # 0, Rep({"C02"} \cup (IF op = "Purge" THEN {"C10"} ELSE {}), "kept", c, b, Q(b)[3]))
        ELSE IF P(b)[3] = 0 THEN
             If(Q(b)[3] # 0 /\ ~(\E j \in 1..Len(sp.blt) : sp.blt[j] = <<c, b>>) /\ mo.p[b].kind \in UserKinds,
                Rep({"C01", "C08"}, "appeared", c, b, Q(b)[3]))
        ELSE IF b \in after /\ ~(Muts /\ b = tgt) THEN {}
        ELSE If(Q(b)[3] # P(b)[3],
                Rep((IF Targeted THEN {"C03"} ELSE IF Muts THEN {"C11"} ELSE IF op = "Collect" THEN {"C06"}
                     ELSE IF Q(b)[3] = 0 THEN {"C03"} ELSE {"C01"})
                    \cup (IF b \in aold THEN {"C10"} ELSE {})
                    \cup (IF sp.bad THEN {"C08"} ELSE {})
                    \cup (IF Requests THEN {"C01"} ELSE {}), "lost", c, b, P(b)[3]))
             \cup If(Q(b)[3] = P(b)[3] /\ Q(b)[4] # P(b)[4] /\ ~(Muts /\ b = tgt), Rep({"C17"}, "content", c, b, Q(b)[4]))
      Written == 10 * tgt + l[5]
      Dyn(b) ==
        LET pd == P(b)[5]  qd == Q(b)[5]  k == mo.p[b].kind
            cls == {"C04"} \cup (IF op = "Collect" THEN {"C06"} ELSE {}) \cup (IF Muts THEN {"C11"} ELSE {})
                   \cup (IF sp.bad THEN {"C08"} ELSE {}) \cup (IF k = "func" THEN {"C15"} ELSE {})
                   \cup (IF k = "redeem" THEN {"C19"} ELSE {})
        IN IF op \in {"ClearAll", "Renew"} \/ (op = "Purge" /\ b = tgt)
           THEN If(qd # -1, Rep({"C04", "C10"}, "state kept", c, b, qd))
           ELSE IF op = "ClearArtifacts"
           THEN If(qd # pd \/ Q(b)[6] # P(b)[6], Rep({"C04", "C10"}, "state", c, b, qd))
           ELSE IF pd # -1 /\ qd = -1 THEN Rep(cls, "state lost", c, b, pd)
           ELSE IF op = "DynMut" /\ b = tgt
           THEN If(k \in {"user", "func"} /\ ~Panicked /\ qd # Written, Rep({"C04"}, "state", c, b, qd))
           ELSE IF k = "redeem"
           THEN If(P(b)[6] # 0 /\ Q(b)[6] # P(b)[6] /\ Q(b)[6] # Q(b)[3], Rep(cls, "remembered", c, b, Q(b)[6]))
           ELSE IF SetIn(b) # {}
           THEN If(\A s \in SetIn(b) : s[3] # qd, Rep(cls, "state", c, b, qd))
           ELSE IF pd = -1
           THEN If(qd # -1 /\ k = "user" /\ (<<c, b>> \notin sp.ini \/ qd # 10 * b + 1), Rep(cls, "state", c, b, qd))
           ELSE If(qd # pd, Rep(cls, "state", c, b, qd))
      mayknow == {s[2] : s \in {y \in sp.res : y[1] = c}}
      Known(b) ==
        LET pk == P(b)[2]  qk == Q(b)[2] IN
        IF op \in {"ClearAll", "Renew"} \/ (op = "Purge" /\ b = tgt)
        THEN If(qk # 0, Rep({"C05", "C10"}, "known", c, b, qk))
        ELSE If(pk = 1 /\ qk = 0, Rep({"C05"} \cup (IF op = "Collect" THEN {"C06"} ELSE {})
                                            \cup (IF op \in {"Purge", "ClearArtifacts"} THEN {"C10"} ELSE {}), "known", c, b, qk))
             \cup If(pk = 0 /\ qk = 1 /\ b \notin mayknow, Rep({"C05"}, "known", c, b, qk))
             \cup If(qk = 0 /\ b \in mayknow /\ ~sp.ip /\ b = tgt, Rep({"C05"}, "known", c, b, qk))
      newly == Cardinality({b \in Both(c) : P(b)[2] = 0 /\ Q(b)[2] = 1})
      could == Cardinality(mayknow \ {b \in Both(c) : P(b)[2] = 1})
      Count ==
        LET pc == mo.cnt[c]  qc == x.c[c][1] IN
        IF op \in {"ClearAll", "Renew"} THEN If(qc # 0, Rep({"C05", "C10"}, "count", c, 0, qc))
        ELSE IF op = "Purge" THEN If(tgt \in DOMAIN mo.row[c] /\ qc # pc - P(tgt)[2], Rep({"C05", "C10"}, "count", c, 0, qc))
        ELSE IF op = "Collect" THEN If(qc > pc, Rep({"C05", "C07"}, "count", c, 0, qc))
        ELSE If(qc < pc + newly \/ qc > pc + could,
                Rep({"C05"} \cup (IF op = "ClearArtifacts" THEN {"C10"} ELSE {}), "count", c, 0, qc))
      Result == \* of a request by the user
        LET g == {s \in sp.got : s[1] = c /\ s[2] = tgt} IN
        If(op \in {"Get", "GetMut"} /\ tgt \in DOMAIN new[c] /\ g # {} /\ \A s \in g : s[3] # Q(tgt)[3],
           Rep({"C01"}, "not cached", c, tgt, Q(tgt)[3]))
        \cup If(op \in {"Get", "GetMut"} /\ tgt \in DOMAIN new[c] /\ g = {} /\ Q(tgt)[3] # 0,
                Rep({"C08"}, "cached after failure", c, tgt, Q(tgt)[3]))
        \cup If(op = "Get" /\ Cardinality({j \in 1..Len(sp.blt) : sp.blt[j] = <<c, tgt>>}) > 1,
                Rep({"C01"}, "built twice", c, tgt, 0))
      \* Everything that was made from the artifact that is accessed mutably.
      MutStale ==
        If(Muts, UNION {If(new[c][u][3] # 0 /\ ~(\E j \in 1..Len(sp.blt) : sp.blt[j] = <<c, u>>) /\
                           \E g \in mo.uses[c][u] : g[1] = tgt, Rep({"C11"}, "stale", c, u, tgt))
                        : u \in Both(c) \ {tgt}})
        \cup If(op = "LookupMut" /\ tgt \in Both(c) /\ P(tgt)[3] # 0 /\ Q(tgt)[4] # MutVal(P(tgt)[4]),
                Rep({"C11"}, "content", c, tgt, Q(tgt)[4]))
      Own == IF ~HasC \/ c \in sp.cr THEN {}
             ELSE UNION {Art(b) \cup Dyn(b) \cup Known(b) : b \in Both(c)} \cup Count \cup Result \cup MutStale
      \* A builder that has just been made.
      Born == IF op # "Create" THEN {}
              ELSE UNION {LET r == IF l[2] \in DOMAIN new[d] THEN new[d][l[2]] ELSE NoRow IN
                          If(r[2] # 0 \/ r[3] # 0 \/ r[5] # -1, Rep({"C09"}, "not fresh", d, l[2], r[3])) : d \in C}
      simple == \A b \in B : mo.p[b].kind \notin (WrapperKinds \cup LeafKinds)
      seen == UNION {{new[d][b][3] : b \in DOMAIN new[d]} : d \in C}
      Live ==
        If(x.z # 0, Rep({"C17"}, "released twice", 0, 0, 0))
        \cup UNION {If(x.k[j][2] \in 1..9 \/ x.k[j][1] \notin mo.kept, Rep({"C17"}, "kept", 0, 0, x.k[j][1])) : j \in 1..Len(x.k)}
        \cup {<<"C17", "released", 0, 0, t>> : t \in {y \in mo.kept : y % K # 0} \ SetOf(x.a)}
        \cup (IF ~simple THEN {} ELSE
              {<<"C17", "not released", 0, Origin(t), t>> :
                 t \in {y \in SetOf(x.a) \ (seen \cup mo.kept) : \A d \in C : Origin(y) \in DOMAIN new[d]}})
        \cup UNION {LET b == x.d[j][1] IN
               If((\A d \in C : b \in DOMAIN new[d]) /\ mo.p[b].kind = "user" /\
                  Cardinality({d \in C : new[d][b][5] # -1}) # x.d[j][2], Rep({"C17", "C04"}, "states", 0, b, x.d[j][2]))
               : j \in 1..Len(x.d)}
        \cup If(op = "Collect" /\ mo.held = {} /\ mo.kept = {} /\ \A d \in C : mo.col[d] >= N,
                If(\E d \in C : x.c[d][1] # 0, Rep({"C07"}, "never collected", 0, 0, x.c[1][1]))
                \cup If(SetOf(x.a) # {}, Rep({"C07", "C17"}, "never released", 0, 0, 0))
                \cup If(SetOf(x.b) # {}, Rep({"C07"}, "never released", 0, 0, 1)))
  IN UNION {Always(d) : d \in C}
     \cup (IF ~mo.ok THEN {} ELSE UNION {Untouched(d) : d \in C \ ({mc} \cup sp.cr)} \cup Own)
     \cup Born \cup Live

\* What an observation changes in the monitor.
Observed(mo, x) ==
  LET l == mo.sp.l  op == l[1]
      HasC == op \notin {"Drop", "Create", "Unkeep", "Begin"}
      new == TLCEval([c \in C |-> TLCEval(Rows(x, c))])
      Gone(c) == IF ~mo.ok \/ c \in mo.sp.cr THEN {}
                 ELSE {b \in DOMAIN new[c] \cap DOMAIN mo.row[c] : mo.row[c][b][3] # 0 /\ new[c][b][3] = 0}
                      \cup (IF op \in {"Invalidate", "Purge", "DynMut"} /\ l[2] = c THEN {l[3]} ELSE {})
      Wiped(c) == c \notin mo.sp.cr /\ op \in {"ClearArtifacts", "ClearAll", "Renew"} /\ l[2] = c
      Kept(c) == IF Wiped(c) THEN {} ELSE LET g == TLCEval(Gone(c)) IN {e \in mo.dep[c] : e[1] \notin g}
  IN [mo EXCEPT !.ok = TRUE, !.row = new, !.cnt = [c \in C |-> x.c[c][1]],
                !.dep = [c \in C |-> Kept(c)],
                !.old = [c \in C |-> IF Wiped(c) \/ (op = "Purge" /\ l[2] = c)
                                     THEN @[c] \cup (mo.dep[c] \ Kept(c)) ELSE @[c]],
                !.stk = <<>>, !.reqs = <<>>]

\* One line: the monitor afterwards, and the reports.
MonStep(mo, line) ==
  LET l == line.l
      m0 == [mo EXCEPT !.col = IF l[1] = "Collect" THEN [@ EXCEPT ![l[2]] = @ + 1] ELSE [c \in C |-> 0]]
      m1 == Decide(m0, l)
      m2 == Events_(m1, line.o)
      r1 == LineReports(m0, m1, m2, line)
      see == line.q = 1 /\ Len(line.x.c) = M
      r2 == IF see THEN ObsReports(m2, line.x) ELSE {}
      m3 == IF see THEN Observed(m2, line.x) ELSE IF line.q = 1 THEN [m2 EXCEPT !.ok = FALSE, !.stk = <<>>] ELSE m2
  IN [mo |-> [m3 EXCEPT !.n = @ + (IF r1 \cup r2 = {} THEN 0 ELSE 1)], rep |-> r1 \cup r2]
=============================================================================
