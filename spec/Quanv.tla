-------------------------------- MODULE Quanv --------------------------------
(***************************************************************************)
(* The quantum convolution layer as a scan over an image batch: the state  *)
(* is the position of the window, one step per window; every window runs   *)
(* the same circuit (pixel rotations, weight rotations, CNOT ring) on the  *)
(* register |0..0> and yields the Z expectation of every qubit.            *)
(* Pixels and weights are given as angles.                                 *)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Kernels, Strides, Heights, Widths, Batches, WithGrad, MaxBits, OutFile
VARIABLES phase, K, S, H, W, B, img, wt, pos, out
vars == <<phase, K, S, H, W, B, img, wt, pos, out>>

n == K * K
Palette == {AngOm(0), AngOm(2), AngOm(4), AngOm(6)}
Odd == {AngOm(1), AngOm(3), AngOm(5), AngOm(7)}
Gens == {P(4, 3, 5), P(3, -4, 5), P(-3, 4, 5), P(12, 5, 13), P(5, -12, 13)}
(* most entries are multiples of pi; a few odd multiples of pi/2 and gen generic ones *)
Vals(L, odd, gen) ==
  LET a == TLCEval([j \in 1..L |-> IF RandomElement(1..100) <= odd THEN RandomElement(Odd) ELSE RandomElement(Palette)])
      g1 == RandomElement(1..L)
      g2 == RandomElement(1..L)
      b == IF gen >= 1 THEN [a EXCEPT ![g1] = RandomElement(Gens)] ELSE a
  IN TLCEval(IF gen >= 2 THEN [b EXCEPT ![g2] = RandomElement(Gens)] ELSE b)

Pix(b, i, j) == img[((b - 1) * H + i) * W + j + 1]           \* 0-based row i, column j of image b
Window(b, i, j) == [q \in 1..n |-> Pix(b, i + ((q - 1) \div K), j + ((q - 1) % K))]
Ring == [q \in 1..n |-> CX(q - 1, q % n)]
Prep(w) == [q \in 1..n |-> Rot("ry", <<>>, <<q - 1>>, w[q], 0)]
Conv == LayerFrom(<<"rx", "rz", "rx">>, [q \in 1..n |-> q - 1], wt, 1, 0) \o Ring
Zero == St(n, 0, 1, Basis(n, 0))
WindowState(w) == Run(Zero, Prep(w) \o Conv)
Z(st) == [q \in 1..n |-> Expect(st, << <<1, << <<q - 1, "Z">> >> >> >>)]
Rows == (H - K) \div S + 1
Cols == (W - K) \div S + 1
RECURSIVE SumCost(_, _)
SumCost(es, j) == IF j > Len(es) THEN 0 ELSE es[j].k + 2 * Log2(es[j].d) + SumCost(es, j + 1)
Fits(w) == LET s == WindowState(w) IN s.k + 2 * Log2(s.d) <= MaxBits

Init == phase = "new" /\ K = 0 /\ S = 0 /\ H = 0 /\ W = 0 /\ B = 0 /\ img = <<>> /\ wt = <<>> /\ pos = 0 /\ out = <<>>
Open == /\ phase = "new" /\ phase' = "scan"
        /\ \E k \in Pick(Kernels) : \E s \in Pick(Strides) : \E h \in Pick({x \in Heights : x >= k}) :
           \E w \in Pick({x \in Widths : x >= k}) : \E b \in Pick(Batches) :
             /\ K' = k /\ S' = s /\ H' = h /\ W' = w /\ B' = b
             /\ img' = Vals(h * w * b, 20, 1) /\ wt' = Vals(3 * k * k, 25, 2)
        /\ pos' = 0 /\ out' = <<>>
(* one window: pos counts image, row, column in this order *)
Visit == /\ phase = "scan" /\ pos < B * Rows * Cols
         /\ LET b == pos \div (Rows * Cols) + 1
                r == (pos \div Cols) % Rows
                c == pos % Cols
                w == Window(b, r * S, c * S)
                st == WindowState(w)
            IN out' = Append(out, [b |-> b - 1, r |-> r, c |-> c, z |-> IF Fits(w) THEN Z(st) ELSE <<>>])
         /\ pos' = pos + 1 /\ UNCHANGED <<phase, K, S, H, W, B, img, wt>>
(* exact derivative of channel q of the window at row r, column c of image b with respect to every weight *)
GradAt(b, r, c, q) ==
  LET w == Window(b, r * S, c * S)
      st == WindowState(w)
      m == ObsApply(<< <<1, << <<q, "Z">> >> >> >>, st, 1)
      G(p) == LET dp == Normalise(RunD(RunFrom(Zero, Prep(w), 1), Conv, p, 1))
                  f == InnerF(m, dp)
              IN Frac(RScale(1, RAdd(f.x, RConj(f.x))), f.k, f.d)
  IN [b |-> b - 1, r |-> r, c |-> c, q |-> q, g |-> [p \in 1..(3 * n) |-> G(p)]]
Finish == /\ phase = "scan" /\ pos = B * Rows * Cols /\ phase' = "done"
          /\ \E b \in Pick(1..B) : \E r \in Pick(0..(Rows - 1)) : \E c \in Pick(0..(Cols - 1)) : \E q \in Pick(0..(n - 1)) :
             OutFile # "" => CSVWrite("%1$s", <<ToJson([K |-> K, S |-> S, H |-> H, W |-> W, B |-> B, rows |-> Rows, cols |-> Cols,
                 img |-> img, wt |-> wt, out |-> out,
                 grad |-> IF WithGrad /\ Fits(Window(b, r * S, c * S)) THEN <<GradAt(b, r, c, q)>> ELSE <<>>])>>, OutFile)
          /\ UNCHANGED <<K, S, H, W, B, img, wt, pos, out>>
Next == Open \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

(* every window lies inside its image, and no further multiple of the stride does *)
Inside == phase \in {"scan", "done"} =>
  /\ (Rows - 1) * S + K <= H /\ (Cols - 1) * S + K <= W
  /\ Rows * S + K > H /\ Cols * S + K > W
(* each position once, in order *)
EachOnce == \A i, j \in DOMAIN out : i # j => <<out[i].b, out[i].r, out[i].c>> # <<out[j].b, out[j].r, out[j].c>>
Complete == phase = "done" => Len(out) = B * Rows * Cols
=============================================================================
