------------------------------ MODULE DaabTwin ------------------------------
(***************************************************************************)
(* Two recordings of the same program with the same decisions, made with    *)
(* different builds, flavours or forms of the library, must be the same      *)
(* behaviour: there must be a one-to-one renaming of artifacts that makes    *)
(* every step and every observation of one equal to that of the other.      *)
(*                                                                          *)
(* Unlike DaabTrace this does not ask whether the behaviour is right.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT K

TA == ndJsonDeserialize(IOEnv.TRACE)
TB == ndJsonDeserialize(IOEnv.TRACE2)

VARIABLES i, j,     \* the next line of each recording
          map,      \* the artifacts of one recording, by those of the other
          skip      \* this run has been found to differ
vars == <<i, j, map, skip>>

SetOf(q) == {q[k] : k \in 1..Len(q)}
Head0(line) == line.l[1] = "Prog"

\* The artifacts that a line mentions, in a fixed order, and what is left without them.
EvTok(e) == CASE e[1] \in {"R", "T"} /\ e[2] = "ok" -> e[3] [] e[1] = "V" -> e[3] [] OTHER -> 0
EvBare(e) == CASE e[1] \in {"R", "T"} /\ e[2] = "ok" -> <<e[1], "ok", e[4]>> [] e[1] = "V" -> <<"V", e[2]>> [] OTHER -> e
NoDoc(q) == SelectSeq(q, LAMBDA e : e[1] \notin {"DR", "DB", "DI", "DC"})
Toks(line) ==
  LET q == NoDoc(line.o)
      evs == [k \in 1..Len(q) |-> EvTok(q[k])]
      lab == IF line.l[1] = "Unkeep" THEN <<line.l[2]>> ELSE <<>>
      Flat(c) == LET r == line.x.c[c][2] IN [k \in 1..(2 * Len(r)) |-> IF k % 2 = 1 THEN r[(k + 1) \div 2][3] ELSE r[k \div 2][6]]
      RECURSIVE All(_)
      All(c) == IF c = 0 THEN <<>> ELSE All(c - 1) \o Flat(c)
      kp == [k \in 1..Len(line.x.k) |-> line.x.k[k][1]]
  IN lab \o evs \o line.n \o (IF line.q = 1 THEN All(Len(line.x.c)) \o kp ELSE <<>>)
Bare(line) ==
  LET q == NoDoc(line.o) IN
  <<IF line.l[1] = "Unkeep" THEN <<"Unkeep">> ELSE line.l, [k \in 1..Len(q) |-> EvBare(q[k])], Len(line.n), line.q>>
RowBare(r) == <<r[1], r[2], r[4], r[5]>>
ObsBare(x) ==
  [c \in 1..Len(x.c) |-> [k \in 1..Len(x.c[c][2]) |-> RowBare(x.c[c][2][k])]]
Rest(x) == <<[c \in 1..Len(x.c) |-> x.c[c][1]], Len(x.a), SetOf(x.b), SetOf(x.d), x.z, Len(x.k)>>

\* The renaming, with its inverse; `ok` is lost when there is none.
NoMap == [f |-> (0 :> 0), g |-> (0 :> 0), ok |-> TRUE]
RECURSIVE Extend(_, _, _)
Extend(m, p, q) ==
  IF p = <<>> \/ ~m.ok THEN m
  ELSE LET x == Head(p)  y == Head(q) IN
       Extend(IF x \in DOMAIN m.f THEN [m EXCEPT !.ok = m.f[x] = y]
              ELSE IF y \in DOMAIN m.g THEN [m EXCEPT !.ok = FALSE]
              ELSE [f |-> m.f @@ (x :> y), g |-> m.g @@ (y :> x), ok |-> TRUE], Tail(p), Tail(q))
Renaming(m, a, b) ==
  LET p == Toks(a)  q == Toks(b)
  IN IF Len(p) # Len(q) THEN [m EXCEPT !.ok = FALSE] ELSE Extend(m, p, q)

\* What is different, "" if nothing.  A collection may remove more at once.
Differs(a, b, m) ==
  IF Bare(a) # Bare(b) THEN "step"
  ELSE IF a.q = 1 /\ ObsBare(a.x) # ObsBare(b.x) THEN "observation"
  ELSE IF ~m.ok THEN "artifact"
  ELSE IF a.q = 1 /\ Rest(a.x) # Rest(b.x) THEN (IF a.l[1] = "Collect" THEN "benign" ELSE "resources")
  ELSE ""

RECURSIVE NextHead(_, _)
NextHead(t, k) == IF k > Len(t) \/ Head0(t[k]) THEN k ELSE NextHead(t, k + 1)

Init == i = 1 /\ j = 1 /\ map = NoMap /\ skip = TRUE
Report(what, a, b) ==
  PrintT(ToJson([what |-> what, line |-> i, line2 |-> j, l |-> a.l, exp |-> a.o, act |-> b.o, obs |-> {}]))

Next ==
  /\ i <= Len(TA) \/ j <= Len(TB)
  /\ LET ea == i > Len(TA) \/ Head0(TA[i])
         eb == j > Len(TB) \/ Head0(TB[j])
     IN IF ea /\ eb
        THEN \* the next run
             /\ i' = i + 1 /\ j' = j + 1 /\ map' = NoMap /\ skip' = FALSE
        ELSE IF skip \/ ea \/ eb
        THEN /\ IF ~skip THEN PrintT(ToJson([what |-> "length", line |-> i, line2 |-> j,
                                             l |-> IF ea THEN TB[j].l ELSE TA[i].l, exp |-> <<>>, act |-> <<>>, obs |-> {}]))
                ELSE TRUE
             /\ skip' = TRUE /\ map' = map
             /\ i' = NextHead(TA, i) /\ j' = NextHead(TB, j)
        ELSE LET a == TA[i]  b == TB[j]
                 broken == a.q = 1 /\ b.q = 1 /\ Len(a.x.c) # Len(b.x.c)
                 m == IF broken \/ a.q # b.q THEN map ELSE Renaming(map, a, b)
                 d == IF broken THEN "observation" ELSE IF a.q # b.q THEN "step" ELSE Differs(a, b, m)
             IN /\ IF d \in {"", "benign"} THEN TRUE ELSE Report(d, a, b)
                /\ skip' = (d # "") /\ map' = m /\ i' = i + 1 /\ j' = j + 1

Spec == Init /\ [][Next]_vars
=============================================================================
