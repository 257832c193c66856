----------------------------- MODULE DoctorText -----------------------------
(***************************************************************************)
(* What the doctors provided by the library write (daab::diagnostics).     *)
(* TextualDoc: a list of entries, one per event.  VisgraphDoc: a graph of  *)
(* builder nodes and artifact nodes.  Built artifacts are numbered by      *)
(* generation and instance; clearing and invalidating begin a generation.  *)
(* An artifact may be reported more than once (a stand-in hands on the     *)
(* artifact of another builder), each time as a node of its own.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NB, NA, Len0, Mode
B == 1..NB
A == 1..NA
VARIABLES hist, gen, ins, text, dep, node
vars == <<hist, gen, ins, text, dep, node>>

Init == hist = <<>> /\ gen = 0 /\ ins = 0 /\ text = <<>> /\ dep = {} /\ node = {}

Resolve(b, d) ==
  /\ hist' = Append(hist, <<1, b, d>>)
  /\ text' = Append(text, <<1, 0, 0, b, d>>)
  /\ dep' = dep \cup {<<b, d>>}
  /\ UNCHANGED <<gen, ins, node>>
Build(b, a) ==
  /\ hist' = Append(hist, <<2, b, a>>)
  /\ text' = Append(text, <<2, gen, ins, b, a>>)
  /\ node' = node \cup {<<gen, ins, b, a>>}
  /\ ins' = ins + 1
  /\ UNCHANGED <<gen, dep>>
NextGen == gen' = gen + 1 /\ ins' = 0
Clear ==
  /\ hist' = Append(hist, <<3, 0, 0>>)
  /\ text' = Append(text, <<3, gen, 0, 0, 0>>)
  /\ NextGen /\ UNCHANGED <<dep, node>>
Invalidate(b) ==
  /\ hist' = Append(hist, <<4, b, 0>>)
  /\ text' = Append(text, <<4, gen, 0, b, 0>>)
  /\ NextGen /\ UNCHANGED <<dep, node>>

\* Long histories begin with many builds of one generation, or with many generations.
Kinds == CASE Mode = "any" -> 1..4
           [] 2 * Len(hist) >= Len0 -> 1..4
           [] Mode = "builds" -> {2}
           [] Mode = "gens" -> {3, 4}
Next == /\ Len(hist) < Len0
        /\ \/ 1 \in Kinds /\ \E b, d \in B : Resolve(b, d)
           \/ 2 \in Kinds /\ \E b \in B, a \in A : Build(b, a)
           \/ 3 \in Kinds /\ Clear
           \/ 4 \in Kinds /\ \E b \in B : Invalidate(b)
Spec == Init /\ [][Next]_vars

(***************************** C14 on the spec *****************************)
Built == {i \in 1..Len(text) : text[i][1] = 2}
\* One entry per event, of its kind and naming what it concerns.
Complete == /\ Len(text) = Len(hist)
            /\ \A i \in 1..Len(hist) : text[i][1] = hist[i][1] /\ text[i][4] = hist[i][2]
                                       /\ text[i][5] = hist[i][3]
\* No number is given twice, numbers grow.
Unambiguous ==
  \A i, j \in Built : i < j => \/ text[i][2] < text[j][2]
                               \/ text[i][2] = text[j][2] /\ text[i][3] < text[j][3]
\* The graph has a node per built artifact and the dependencies seen.
GraphExact == /\ Cardinality(node) = Cardinality(Built)
              /\ \A i \in Built : <<text[i][2], text[i][3], text[i][4], text[i][5]>> \in node
              /\ dep = {<<hist[i][2], hist[i][3]>> : i \in {j \in 1..Len(hist) : hist[j][1] = 1}}
\* A generation is begun by nothing but clearing and invalidating.
Generations == [][ (gen' # gen) = (hist'[Len(hist')][1] \in {3, 4}) /\ gen' \in {gen, gen + 1} ]_vars

(******************************** the replay *******************************)
Emit == PrintT(ToString(<<"D", text, [b \in B |-> [d \in B |-> IF <<b, d>> \in dep THEN 1 ELSE 0]]>>))
\* For random long histories (simulation).
EmitLong == Len(hist) = Len0 => Emit
=============================================================================
