------------------------------ MODULE StateTable ------------------------------
(***************************************************************************)
(* Vectors and their tensor forms. A tensor of rank n is a function of the *)
(* n bits of the index, qubit 0 first; the chain form (matrix product) has *)
(* one tensor per qubit with bond i at most 2^min(i, n-i).                 *)
(* Sim = FALSE enumerates all vectors over a small alphabet.               *)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Sizes, Classes, Alphabet, OutFile
VARIABLES phase, n, v, cls
vars == <<phase, n, v, cls>>

AlphaSeq == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 1>>, <<2, 0>>, <<-1, 0>> >>
Alpha == { RGauss(AlphaSeq[x][1], AlphaSeq[x][2]) : x \in Alphabet }       \* Alphabet: indices
Ratios == {3, 100, 4096, 65536, 1048576}
(* families at and around the singular-value cut-off, low Schmidt rank, product across one cut *)
Fam(c, m) ==
  CASE c = "all" -> {x \in [1..2^m -> Alpha] : \E j \in DOMAIN x : x[j] # R0}
    [] c = "ghz" -> UNION {{[i \in 1..2^m |-> IF i = 1 + z THEN RInt(s) ELSE IF i = 2^m - z THEN y ELSE R0]
                      : y \in Pick({R1, RI, RNeg(R1)}), z \in Pick(0..(2^m - 1))} : s \in Pick(Ratios)}
    [] c = "cut" -> IF m < 2 THEN PickVec("dense", m)
                    ELSE UNION { { TLCEval(Kron(a, b)) : a \in PickVec("dense", q), b \in PickVec("dense", m - q) }
                                 : q \in Pick(1..(m - 1)) }
    [] c = "near" -> \* a product vector plus a small entangled part
                     { TLCEval([i \in 1..2^m |-> RAdd(RScale(s, p[i]), e[i])])
                       : p \in ProdVec(m), e \in PickVec("sparse2", m), s \in Pick({100, 10000}) }
    [] OTHER -> PickVec(c, m)
Init == phase = "new" /\ n = 0 /\ v = <<>> /\ cls = ""
Size == phase = "new" /\ phase' = "size" /\ n' \in Pick(Sizes) /\ UNCHANGED <<v, cls>>
Vector ==
  /\ phase = "size" /\ phase' = "done" /\ UNCHANGED n
  /\ \E c \in Pick(IF n = 1 THEN Classes \ {"sparse", "schmidt", "near"} ELSE Classes) : \E x \in Fam(c, n) :
       /\ v' = x /\ cls' = c
       /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, v |-> x, cls |-> c,
                             caps |-> [i \in 1..(n + 1) |-> LET a == i - 1 IN 2^(IF a < n - a THEN a ELSE n - a)]])>>, OutFile)
Next == Size \/ Vector
Spec == Init /\ [][Next]_vars

(* the rank-n form: a bijection between indices and bit tuples that puts qubit 0 first *)
BitsOf(i) == [q \in 1..n |-> Bit(n, i, q - 1)]
RECURSIVE IdxOf(_, _)
IdxOf(b, q) == IF q > n THEN 0 ELSE b[q] * 2^(n - q) + IdxOf(b, q + 1)
Lossless == phase = "done" => \A i \in 0..(2^n - 1) : IdxOf(BitsOf(i), 1) = i
(* the splitting used to build the chain: half the columns below the other half; entry (b, c) of the *)
(* result is entry b*half + c, so after q steps the row spells the first q bits                        *)
Split(M, cols) == [b \in 0..(2 * (Len(M) \div cols) - 1) |->      \* M: rows*cols flat, row-major
                     [c \in 0..(cols \div 2 - 1) |->
                        LET rows == Len(M) \div cols IN M[(b % rows) * cols + (b \div rows) * (cols \div 2) + c + 1]]]
FirstSplit == phase = "done" =>
  LET s == Split(v, 2^n) IN \A b \in 0..1 : \A c \in 0..(2^(n - 1) - 1) : s[b][c] = v[b * 2^(n - 1) + c + 1]
=============================================================================
