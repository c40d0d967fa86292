-------------------------------- MODULE Gates --------------------------------
(***************************************************************************)
(* The instruction set of the library: every gate and layer, denoted as a  *)
(* sequence of elementary operations (first element acts first).           *)
(* An operation is [g, w, p, r]: kind, wires (0-based, in the order given  *)
(* by the caller), parameters (angles, in the caller's order), repetitions.*)
(***************************************************************************)
EXTENDS QSem

Op(g, w, p) == [g |-> g, w |-> w, p |-> p, r |-> 1]
OpR(g, w, p, r) == [g |-> g, w |-> w, p |-> p, r |-> r]

Fixed1  == {"H", "X", "Y", "Z"}
Param1  == {"rx", "ry", "rz", "u1"}
Fixed2  == {"cnot", "cz", "SWAP"}
Param2  == {"rxx", "ryy", "rzz", "cphase"}
U3s     == {"u3", "cu3"}
Layers3 == {"XYZ", "ZYX", "YZY", "XZX"}
Layers2 == {"XZ", "ZX"}
Rings   == {"ring", "ringd", "ring2"}
AllKinds == Fixed1 \cup Param1 \cup Fixed2 \cup Param2 \cup U3s \cup Layers3 \cup Layers2
            \cup Rings \cup {"toffoli", "mcc", "HL", "BEL"}
GateKinds == Fixed1 \cup Param1 \cup Fixed2 \cup Param2 \cup U3s \cup {"toffoli", "mcc"}
LayerKinds == AllKinds \ GateKinds

(* number of parameters of an operation on len wires *)
NumParams(g, len, r) ==
  CASE g \in Param1 \cup Param2 -> 1
    [] g \in U3s -> 3
    [] g \in Layers3 -> 3 * len
    [] g \in Layers2 -> 2 * len
    [] g = "BEL" -> 3 * len * r
    [] OTHER -> 0

Axes(g) == CASE g = "XYZ" -> <<"rx", "ry", "rz">> [] g = "ZYX" -> <<"rz", "ry", "rx">>
             [] g = "YZY" -> <<"ry", "rz", "ry">> [] g = "XZX" -> <<"rx", "rz", "rx">>
             [] g = "XZ" -> <<"rx", "rz">>        [] g = "ZX" -> <<"rz", "rx">>

RECURSIVE LayerFrom(_, _, _, _, _)
LayerFrom(ax, w, p, j, q0) ==       \* wires w[j..]; parameter numbers start at q0 + 1
  IF j > Len(w) THEN <<>>
  ELSE [s \in 1..Len(ax) |-> Rot(ax[s], <<>>, <<w[j]>>, p[q0 + Len(ax) * (j - 1) + s],
                                 q0 + Len(ax) * (j - 1) + s)]
       \o LayerFrom(ax, w, p, j + 1, q0)

CX(c, t) == Fix("X", <<c>>, <<t>>)
RingEls(w, hop) == IF Len(w) = 2 THEN <<CX(w[1], w[2])>>
                   ELSE [j \in 1..Len(w) |-> CX(w[j], w[((j - 1 + hop) % Len(w)) + 1])]
RECURSIVE BelFrom(_, _, _)
BelFrom(op, b, L) == IF b > op.r THEN <<>>
                     ELSE LayerFrom(Axes("YZY"), op.w, op.p, 1, (b - 1) * L)
                          \o RingEls(op.w, 1) \o BelFrom(op, b + 1, L)

(* u3(theta, phi, lambda) = Rz(phi) Rx(-pi/2) Rz(theta) Rx(pi/2) Rz(lambda), as documented *)
U3Els(c, t, p) == << Rot("rz", c, t, p[3], 3), Rot("rx", c, t, AngOm(1), 0),
                     Rot("rz", c, t, p[1], 1), Rot("rx", c, t, AngOm(7), 0),
                     Rot("rz", c, t, p[2], 2) >>

Den(op) ==
  LET w == op.w p == op.p IN
  CASE op.g \in Fixed1 -> <<Fix(op.g, <<>>, <<w[1]>>)>>
    [] op.g \in {"rx", "ry", "rz"} -> <<Rot(op.g, <<>>, <<w[1]>>, p[1], 1)>>
    [] op.g = "u1" -> <<Rot("ph", <<>>, <<w[1]>>, p[1], 1)>>
    [] op.g = "u3" -> U3Els(<<>>, <<w[1]>>, p)
    [] op.g \in {"rxx", "ryy", "rzz"} -> <<Rot(op.g, <<>>, w, p[1], 1)>>
    [] op.g = "cnot" -> <<CX(w[1], w[2])>>
    [] op.g = "cz" -> <<Fix("Z", <<w[1]>>, <<w[2]>>)>>
    [] op.g = "SWAP" -> <<Fix("SW", <<>>, w)>>
    [] op.g = "cphase" -> <<Rot("ph", <<w[1]>>, <<w[2]>>, p[1], 1)>>
    [] op.g = "cu3" -> U3Els(<<w[1]>>, <<w[2]>>, p)
    [] op.g \in {"toffoli", "mcc"} ->
         <<Fix("X", SubSeq(w, 1, Len(w) - 1), <<w[Len(w)]>>)>>
    [] op.g \in Layers3 \cup Layers2 -> LayerFrom(Axes(op.g), w, p, 1, 0)
    [] op.g = "HL" -> [j \in DOMAIN w |-> Fix("H", <<>>, <<w[j]>>)]
    [] op.g = "ring" -> RingEls(w, 1)
    [] op.g = "ring2" -> RingEls(w, 2)
    [] op.g = "ringd" -> AdjSeq(RingEls(w, 1))
    [] op.g = "BEL" -> BelFrom(op, 1, 3 * Len(w))

RECURSIVE CatFrom(_, _)
CatFrom(circ, j) == IF j > Len(circ) THEN <<>> ELSE Den(circ[j]) \o CatFrom(circ, j + 1)
CircEls(circ) == CatFrom(circ, 1)

(* does the library promise matrix-product evolution for the operation? *)
WholeRing(op, n) == op.w = [j \in 1..n |-> j - 1]
SupportsTN(op, n) == /\ op.g \notin {"mcc", "ring2", "BEL"}
                     /\ op.g \in {"ring", "ringd"} => WholeRing(op, n)
HasDagger(op) == op.g \notin {"ring2", "BEL"}

(* the inverse of an operation inside the instruction set: kind DagKind, same wires, and       *)
(* parameter number j is minus parameter number DagMap[j] of the operation                   *)
DagKind(g) == CASE g = "XYZ" -> "ZYX" [] g = "ZYX" -> "XYZ" [] g = "XZ" -> "ZX"
                [] g = "ZX" -> "XZ" [] g = "ring" -> "ringd" [] g = "ringd" -> "ring"
                [] OTHER -> g
DagMap(op) ==
  CASE op.g \in U3s -> <<1, 3, 2>>
    [] op.g \in Layers3 -> [j \in DOMAIN op.p |-> 3 * ((j - 1) \div 3) + 3 - ((j - 1) % 3)]
    [] op.g \in Layers2 -> [j \in DOMAIN op.p |-> 2 * ((j - 1) \div 2) + 2 - ((j - 1) % 2)]
    [] OTHER -> [j \in DOMAIN op.p |-> j]
DagOp(op) == [op EXCEPT !.g = DagKind(op.g),
                        !.p = [j \in DOMAIN op.p |-> AngNeg(op.p[DagMap(op)[j]])]]

(* what an operation reports about itself *)
RECURSIVE Str(_)
Str(m) == IF m < 10 THEN <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[m + 1]
          ELSE Str(m \div 10) \o Str(m % 10)
Label(op) ==
  CASE op.g = "H" -> "Hadamard" [] op.g = "X" -> "PauliX" [] op.g = "Y" -> "PauliY"
    [] op.g = "Z" -> "PauliZ" [] op.g = "rx" -> "Rx" [] op.g = "ry" -> "Ry" [] op.g = "rz" -> "Rz"
    [] op.g = "rxx" -> "Rxx" [] op.g = "ryy" -> "Ryy" [] op.g = "rzz" -> "Rzz"
    [] op.g \in Layers3 \cup Layers2 -> op.g \o "Layer"
    [] op.g = "HL" -> "HadamardLayer" [] op.g = "ring" -> "ring_of_cnot_Layer"
    [] op.g = "ringd" -> "ring_of_cnot_dagger" [] op.g = "ring2" -> "ring_of_cnot2_Layer"
    [] op.g = "BEL" -> "BasicEntangleLayer"
    [] op.g = "mcc" -> Str(Len(op.w) - 1) \o "_control_cnot"
    [] OTHER -> op.g
Hop(g) == IF g = "ring2" THEN 2 ELSE 1
Ctrl(op) ==
  CASE op.g \in {"cnot", "cz", "cphase", "cu3"} -> <<op.w[1]>>
    [] op.g \in {"toffoli", "mcc"} -> SubSeq(op.w, 1, Len(op.w) - 1)
    [] op.g \in Rings -> IF Len(op.w) = 2 THEN <<op.w[1]>> ELSE op.w
    [] OTHER -> <<>>
Targ(op) ==
  CASE op.g \in {"cnot", "cz", "cphase", "cu3"} -> <<op.w[2]>>
    [] op.g \in {"toffoli", "mcc"} -> <<op.w[Len(op.w)]>>
    [] op.g \in Rings -> IF Len(op.w) = 2 THEN <<op.w[2]>>
                         ELSE [j \in DOMAIN op.w |-> op.w[((j - 1 + Hop(op.g)) % Len(op.w)) + 1]]
    [] OTHER -> op.w
Info(op) == [label |-> Label(op), ctrl |-> Ctrl(op), targ |-> Targ(op)]

(* d/d(parameter q) of the whole operation applied to st: the element that depends on q is  *)
(* replaced by its derivative (each parameter occurs in exactly one element)                *)
RECURSIVE RunD(_, _, _, _)
RunD(st, es, q, j) ==
  IF j > Len(es) THEN st
  ELSE RunD(TLCEval(ApplyEl(st, IF es[j].q = q THEN Deriv(es[j]) ELSE es[j])), es, q, j + 1)

(* the documented u3 equals Rz(phi) Ry(theta) Rz(lambda) *)
ASSUME LET p == << P(4, 3, 5), AngOm(3), AngOm(1) >>
           s == St(1, 0, 1, << RGauss(1, 2), RGauss(-1, 1) >>)
       IN SameState(Run(s, U3Els(<<>>, <<0>>, p)),
                    Run(s, << Rot("rz", <<>>, <<0>>, p[3], 3), Rot("ry", <<>>, <<0>>, p[1], 1),
                              Rot("rz", <<>>, <<0>>, p[2], 2) >>))
=============================================================================
