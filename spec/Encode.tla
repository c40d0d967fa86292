-------------------------------- MODULE Encode --------------------------------
(***************************************************************************)
(* Encodings of classical data: amplitude encoding, rotation (Pauli)       *)
(* encoding, state / density preparation and Gram encoding, and requests   *)
(* that have to be refused.                                                *)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Sizes, Ops, OutFile
VARIABLES phase, n, req, ans
vars == <<phase, n, req, ans>>

DataQ == { <<1, 0>>, <<2, 0>>, <<-3, 0>>, <<0, 1>>, <<1, -2>>, <<0, 0>>, <<-1, 1>>, <<5, 0>> }
RealQ == { <<1, 0>>, <<2, 0>>, <<-3, 0>>, <<0, 0>>, <<4, 0>>, <<-1, 0>> }
PosQ == { <<1, 0>>, <<2, 0>>, <<3, 0>>, <<0, 0>>, <<4, 0>>, <<12, 0>> }
Seq2(L, S) == TLCEval([j \in 1..L |-> LET g == RandomElement(S) IN RGauss(g[1], g[2])])
Data(L, S) == LET x == Seq2(L, S) IN IF NonZero(x) THEN x ELSE [x EXCEPT ![L] = RInt(3)]
Padded(x, m) == [i \in 1..2^m |-> IF i <= Len(x) THEN x[i] ELSE R0]
RECURSIVE PaulisEls(_, _, _, _)
PaulisEls(ax, w, p, j) == IF j > Len(w) THEN <<>>
                          ELSE <<Rot(ax, <<>>, <<w[j]>>, p[((j - 1) % Len(p)) + 1], 0)>> \o PaulisEls(ax, w, p, j + 1)
Axis == {"rx", "ry", "rz"}

Init == phase = "new" /\ n = 0 /\ req = <<>> /\ ans = <<>>
Size == phase = "new" /\ phase' = "size" /\ n' \in Pick(Sizes) /\ UNCHANGED <<req, ans>>
R(o, x, w, ax, p) == [o |-> o, x |-> x, w |-> w, ax |-> ax, p |-> p]
Request ==
  /\ phase = "size" /\ phase' = "req" /\ UNCHANGED <<n, ans>>
  /\ \E o \in Pick(Ops) : \E L \in Pick(1..2^n) : \E k \in Pick(1..n) : \E m \in Pick(1..n) : \E ax \in Pick(Axis) :
       \E S \in Pick({DataQ, RealQ}) : \E w \in PickSeq(0..(n - 1), k) : \E p \in PickParams(IF o = "pauli" THEN m ELSE 0, 50) :
       req' = CASE o = "amp" -> R(o, Data(L, S), <<>>, "", <<>>)
                [] o = "ampfull" -> R("amp", Data(2^n, S), <<>>, "", <<>>)
                [] o = "pauli" -> R(o, <<>>, w, ax, p)
                [] o = "prep" -> R(o, Data(2^n, S), <<>>, "", <<>>)
                [] o = "gram" -> R(o, Data(2^n, PosQ), <<>>, "", <<>>)
                [] o = "signed" -> R("signed", Data(2^n, RealQ), <<>>, "", <<>>)
                [] o = "badlen" -> R(o, Data(2^n + 1 + RandomElement(0..3), RealQ), <<>>, "", <<>>)
                [] o = "badnum" -> R(o, Data(n + RandomElement(1..3), RealQ), w, ax, <<>>)
                [] o = "badaxis" -> R(o, Data(m, RealQ), w, RandomElement({"W", "x", "XY", "H", ""}), <<>>)
Answer ==
  /\ phase = "req" /\ phase' = "done" /\ UNCHANGED <<n, req>>
  /\ ans' = CASE req.o = "amp" -> [ok |-> TRUE, n2 |-> Norm2(req.x), v |-> Padded(req.x, n), cols |-> <<>>]
              [] req.o = "pauli" ->
                   LET es == PaulisEls(req.ax, req.w, req.p, 1)
                   IN [ok |-> TRUE, n2 |-> 0, v |-> <<>>,
                       cols |-> [j \in 1..2^n |-> LET s == Run(St(n, 0, 1, Basis(n, j - 1)), es)
                                                  IN [k |-> s.k, d |-> s.d, v |-> s.v]]]
              [] req.o = "prep" -> [ok |-> TRUE, n2 |-> Norm2(req.x), v |-> req.x,
                                    cols |-> [i \in 1..2^n |-> [j \in 1..2^n |-> RMul(req.x[i], RConj(req.x[j]))]]]
              [] req.o \in {"gram", "signed"} ->
                   [ok |-> TRUE, n2 |-> Norm2(req.x), v |-> req.x,
                    cols |-> [i \in 1..2^n |-> [j \in 1..2^n |-> RMul(req.x[i], req.x[j])]]]
              [] OTHER -> [ok |-> FALSE, n2 |-> 0, v |-> <<>>, cols |-> <<>>]
  /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, req |-> req, ans |-> ans'])>>, OutFile)
Next == Size \/ Request \/ Answer
Spec == Init /\ [][Next]_vars

Answered == phase = "done" /\ ans.ok
AmpNormalised == (Answered /\ req.o = "amp") => Norm2(ans.v) = ans.n2 /\ ans.n2 > 0
RECURSIVE TrTo(_, _)
TrTo(M, j) == IF j = 0 THEN R0 ELSE RAdd(M[j][j], TrTo(M, j - 1))
DensityOK == (Answered /\ req.o \in {"prep", "gram"}) =>
  /\ TrTo(ans.cols, 2^n) = RInt(ans.n2)
  /\ \A i, j \in 1..2^n : ans.cols[i][j] = RConj(ans.cols[j][i])
PauliUnitary == (Answered /\ req.o = "pauli" /\ \A i \in DOMAIN ans.cols : ans.cols[i].k + 2 * Log2(ans.cols[i].d) <= 28) =>
  \A i, j \in DOMAIN ans.cols : LET f == InnerF(ans.cols[i], ans.cols[j])
                                IN f.x = IF i = j THEN RTimesSqrt2Pow(f.k, RInt(f.d)) ELSE R0
=============================================================================
