-------------------------------- MODULE Purity --------------------------------
(***************************************************************************)
(* Objects of a session and what may happen to them: gate objects that are *)
(* shared by circuits and updated, two circuits, matrix product states in  *)
(* three slots, and arguments handed to evaluations. Every object has a    *)
(* symbolic value (a term); every evaluation has a key - the function and  *)
(* the terms of its arguments. The promise: what an evaluation returns and *)
(* what an object looks like are functions of key and term alone, however  *)
(* often and in whatever order anything was evaluated before.              *)
(* An event is [a, x, y, o]: action, two object numbers, an option.        *)
(***************************************************************************)
EXTENDS Picks, Json, CSV

Alts == 1..2                       \* alternative parameter vectors of a gate
Circs == 1..2
Slots == 1..3

Ev(a, x, y, o) == [a |-> a, x |-> x, y |-> y, o |-> o]
NoEv == Ev("none", 0, 0, 0)

(* ---------------------------------------------------------------- terms *)
(* store s: cur - current alternative per gate; circs - entries [g, a0] (gate, alternative when it was added);
   mval - terms of the matrix product states: the sequence of applied [g, a] *)
Start(k) == [cur |-> [g \in 1..k |-> 1], circs |-> [c \in Circs |-> <<>>], mval |-> [m \in Slots |-> <<>>]]
GTerm(s, g) == [g |-> g, a |-> s.cur[g]]
CTerm(s, c) == [j \in DOMAIN s.circs[c] |-> GTerm(s, s.circs[c][j].g)]

(* gates: evaluations of a gate, a circuit, a state, of arguments alone *)
GateEvals == {"gU", "gdag", "gcon", "gcon_b", "ginfo"}
CircEvals == {"cU", "cUrev", "ccheck", "cinit", "cexp", "ccon", "ccon_b", "cshift", "csweep"}
SlotEvals == {"mvec", "mtensor", "mexpec"}
ArgEvals  == {"sv2mps", "mpstensor", "rho2mps", "mpdo", "ptrace", "partial", "partial_old", "measv", "measr", "expv", "expr",
              "dag", "isu", "ish", "isn", "kron", "amp", "pauli", "prep", "gram", "legacy", "layerfn", "quanv"}
Evals == GateEvals \cup CircEvals \cup SlotEvals \cup ArgEvals \cup {"minner"}
Evolves == {"gev", "cev"}          \* the matrix product state in slot y is handed to gate / circuit x
Changes == {"upd", "add", "clr", "copy", "fresh"}

(* does gate g of the pool support matrix-product evolution? *)
TN(pool, n, g) == SupportsTN(pool[g][1], n)
AllTN(pool, n, s, c) == \A j \in DOMAIN s.circs[c] : TN(pool, n, s.circs[c][j].g)

Step(pool, n, s, e) ==
  CASE e.a = "upd" -> [s EXCEPT !.cur[e.x] = e.o]
    [] e.a = "add" -> [s EXCEPT !.circs[e.x] = Append(@, [g |-> e.y, a0 |-> s.cur[e.y]])]
    [] e.a = "clr" -> [s EXCEPT !.circs[e.x] = <<>>]
    [] e.a = "copy" -> [s EXCEPT !.mval[e.y] = s.mval[e.x]]
    [] e.a = "fresh" -> [s EXCEPT !.mval[e.y] = <<>>]
    [] e.a = "gev" /\ TN(pool, n, e.x) -> [s EXCEPT !.mval[e.y] = Append(@, GTerm(s, e.x))]
    [] e.a = "cev" /\ AllTN(pool, n, s, e.x) -> [s EXCEPT !.mval[e.y] = @ \o CTerm(s, e.x)]
    [] OTHER -> s                   \* evaluations, and evolutions that are refused

(* the key of the value an event returns; <<>> for events that return nothing *)
Key(s, e) ==
  CASE e.a \in GateEvals -> <<e.a, GTerm(s, e.x)>>
    [] e.a \in CircEvals -> <<e.a, CTerm(s, e.x)>>          \* expectation: the same on every path
    [] e.a \in SlotEvals -> <<e.a, s.mval[e.x]>>
    [] e.a = "minner" -> <<e.a, s.mval[e.x], s.mval[e.y]>>
    [] e.a \in ArgEvals -> <<e.a>>
    [] e.a = "gev" -> <<e.a, s.mval[e.y], GTerm(s, e.x)>>
    [] e.a = "cev" -> <<e.a, s.mval[e.y], CTerm(s, e.x)>>
    [] OTHER -> <<>>

(* ------------------------------------------------- generating sessions *)
CONSTANTS Kinds, Sizes, Gates0, Lengths, MaxOps, OutFile
VARIABLES phase, n, pool, s, todo, hist
vars == <<phase, n, pool, s, todo, hist>>

RECURSIVE PickPool(_, _)
PickPool(m, k) ==
  IF k = 0 THEN {<<>>}
  ELSE UNION { UNION { UNION { { << <<op, [op EXCEPT !.p = q]>> >> \o rest : rest \in PickPool(m, k - 1) }
                               : q \in PickParams(Len(op.p), 50) }
                       : op \in PickOp(g, m) }
               : g \in Pick({x \in Kinds : Arity(x, m) # {}}) }

Init == phase = "new" /\ n = 0 /\ pool = <<>> /\ s = Start(0) /\ todo = 0 /\ hist = <<>>
Open == /\ phase = "new" /\ phase' = "open"
        /\ \E m \in Pick(Sizes) : \E k \in Pick(Gates0) : \E l \in Pick(Lengths) :
             \E p \in PickPool(m, k) :
               /\ n' = m /\ pool' = p /\ s' = Start(k) /\ todo' = l
        /\ hist' = <<>>

In(c, g) == \E j \in DOMAIN s.circs[c] : s.circs[c][j].g = g
GateNos == DOMAIN pool
(* bonds and numbers stay small: at most MaxOps operations on a state *)
Events ==
  [ upd |-> { Ev("upd", g, 0, a) : g \in {x \in GateNos : pool[x][1].p # <<>>}, a \in Alts },
    add |-> { Ev("add", c, g, o) : c \in Circs, g \in GateNos, o \in {0} } \ { e \in {Ev("add", c, g, 0) : c \in Circs, g \in GateNos} : In(e.x, e.y) },
    clr |-> { Ev("clr", c, 0, 0) : c \in Circs },
    cpy |-> { Ev("copy", x, y, 0) : x \in Slots, y \in Slots } \cup { Ev("fresh", 0, y, 0) : y \in Slots },
    evo |-> { e \in { Ev("gev", g, m, 0) : g \in GateNos, m \in Slots } \cup { Ev("cev", c, m, 0) : c \in Circs, m \in Slots } :
                Len(Step(pool, n, s, e).mval[e.y]) <= MaxOps },
    gat |-> { Ev(a, g, 0, 0) : a \in GateEvals, g \in GateNos },
    cir |-> { Ev(a, c, 0, o) : a \in CircEvals, c \in Circs, o \in 0..1 },
    slo |-> { Ev(a, m, 0, 0) : a \in SlotEvals, m \in Slots } \cup { Ev("minner", x, y, 0) : x \in Slots, y \in Slots },
    arg |-> { Ev(a, 0, 0, o) : a \in ArgEvals, o \in 0..1 } ]
Classes == <<"upd", "upd", "add", "add", "add", "cpy", "evo", "evo", "evo", "gat", "gat", "cir", "cir", "cir", "cir", "slo", "arg", "arg", "clr">>

Do == /\ phase = "open" /\ todo > 0 /\ todo' = todo - 1
      /\ \E r \in Pick(DOMAIN Classes) :
           LET E == Events[Classes[r]]
           IN IF E = {} \/ (Classes[r] = "clr" /\ RandomElement(1..2) = 1) THEN UNCHANGED <<s, hist>>
              ELSE \E e \in Pick(E) : s' = Step(pool, n, s, e) /\ hist' = Append(hist, e)
      /\ UNCHANGED <<phase, n, pool>>
Close == /\ phase = "open" /\ todo = 0 /\ phase' = "done"
         /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, pool |-> pool, ev |-> hist])>>, OutFile)
         /\ UNCHANGED <<n, pool, s, todo, hist>>
Next == Open \/ Do \/ Close
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- properties *)
Last == IF hist = <<>> THEN NoEv ELSE hist[Len(hist)]
(* evaluations change nothing; evolutions change at most the state handed to them; changes change their own object *)
Frame == [][ (phase = "open" /\ Len(hist') = Len(hist) + 1) =>
               LET e == hist'[Len(hist')] IN
               /\ e.a \in Evals => s' = s
               /\ e.a \in Evolves => s'.cur = s.cur /\ s'.circs = s.circs /\ \A m \in Slots \ {e.y} : s'.mval[m] = s.mval[m]
               /\ e.a = "upd" => s'.circs = s.circs /\ s'.mval = s.mval /\ \A g \in GateNos \ {e.x} : s'.cur[g] = s.cur[g]
               /\ e.a \in {"add", "clr"} => s'.cur = s.cur /\ s'.mval = s.mval /\ \A c \in Circs \ {e.x} : s'.circs[c] = s.circs[c]
           ]_vars
(* circuits that share no gate have independent terms: updating a gate changes the terms of exactly the circuits that hold it *)
Sharing == [][ (phase = "open" /\ Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].a = "upd") =>
                 LET g == hist'[Len(hist')].x
                     changed(c) == [j \in DOMAIN s.circs[c] |-> [g |-> s.circs[c][j].g, a |-> s'.cur[s.circs[c][j].g]]] # CTerm(s, c)
                 IN \A c \in Circs : changed(c) => In(c, g)
             ]_vars
=============================================================================
