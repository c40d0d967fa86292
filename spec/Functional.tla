------------------------------ MODULE Functional ------------------------------
(***************************************************************************)
(* The free-standing layer functions (layers/qlayer.py), denoted like the  *)
(* instruction set. A request is [g, w, p, r]: r = 1 is up2down = True     *)
(* (the upper qubit controls first), r = 0 is up2down = False.             *)
(***************************************************************************)
EXTENDS Picks

FDir == {"fring", "fring2", "fringcz", "fnncnot", "fnncz", "fall2all"}   \* with a direction
FRot == {"fXYZ", "fYZY", "fXZX", "fXZ"}
FBrick == {"fRxx", "fRyy", "fRzz"}
FBel == {"fbelYZY", "fbelXZX", "fbelXYZ", "fbelXZ"}
FBel2 == {"fbel2YZY", "fbel2XZX", "fbel2XYZ", "fbel2XZ"}
FSel == {"fselYZY", "fselXZX", "fselXYZ", "fselXZ"}
FKinds == FDir \cup FRot \cup FBrick \cup FBel \cup FBel2 \cup FSel \cup {"fH"}

FAxes(g) == CASE g \in {"fXYZ", "fbelXYZ", "fbel2XYZ", "fselXYZ"} -> Axes("XYZ")
              [] g \in {"fYZY", "fbelYZY", "fbel2YZY", "fselYZY"} -> Axes("YZY")
              [] g \in {"fXZX", "fbelXZX", "fbel2XZX", "fselXZX"} -> Axes("XZX")
              [] g \in {"fXZ", "fbelXZ", "fbel2XZ", "fselXZ"} -> Axes("XZ")
FParams(g, n) ==
  CASE g \in FRot \cup FBel -> Len(FAxes(g)) * n
    [] g \in FBel2 \cup FSel -> 2 * Len(FAxes(g)) * n
    [] g \in FBrick -> n - 1
    [] OTHER -> 0
FMin(g) == IF g \in FRot \cup {"fH"} THEN 1 ELSE 2
FDirs(g) == IF g \in FDir THEN {0, 1} ELSE {1}

CZ(c, t) == Fix("Z", <<c>>, <<t>>)
C2(cz, c, t) == IF cz THEN CZ(c, t) ELSE CX(c, t)
RingF(n, hop, up, cz) ==
  IF n = 2 THEN << IF up THEN C2(cz, 0, 1) ELSE C2(cz, 1, 0) >>
  ELSE [j \in 1..n |-> IF up THEN C2(cz, j - 1, (j - 1 + hop) % n)
                       ELSE C2(cz, n - j, (n - j + n - hop) % n)]
(* pairs of neighbours: first every second pair from the preferred end, then the others *)
RECURSIVE Pairs(_, _, _, _)
Pairs(n, i, up, cz) ==        \* up: (i,i+1), (i+2,i+3), ...; down: (i,i-1), (i-2,i-3), ...
  IF up THEN IF i + 1 > n - 1 THEN <<>> ELSE <<C2(cz, i, i + 1)>> \o Pairs(n, i + 2, up, cz)
        ELSE IF i - 1 < 0 THEN <<>> ELSE <<C2(cz, i, i - 1)>> \o Pairs(n, i - 2, up, cz)
Nearest(n, up, cz) ==
  IF n = 2 THEN << IF up THEN C2(cz, 0, 1) ELSE C2(cz, 1, 0) >>
  ELSE IF up THEN Pairs(n, 0, up, cz) \o Pairs(n, 1, up, cz)
  ELSE Pairs(n, n - 1, up, cz) \o Pairs(n, n - 2, up, cz)
AllTargets(n, c, up) ==
  LET s == [j \in 1..n |-> IF up THEN j - 1 ELSE n - j]
      t == SelectSeq(s, LAMBDA x : x # c)
  IN [j \in DOMAIN t |-> CX(c, t[j])]
RECURSIVE A2A(_, _, _)
A2A(n, j, up) == IF j > n THEN <<>>
                 ELSE AllTargets(n, IF up THEN j - 1 ELSE n - j, up) \o A2A(n, j + 1, up)
All2All(n, up) == IF n = 2 THEN << IF up THEN CX(0, 1) ELSE CX(1, 0) >> ELSE A2A(n, 1, up)

Brick(ty, n, p) ==
  LET h == n \div 2
  IN [j \in 1..(n - 1) |-> IF j <= h THEN Rot(ty, <<>>, <<2 * (j - 1), 2 * (j - 1) + 1>>, p[j], j)
                           ELSE Rot(ty, <<>>, <<2 * (j - h) - 1, 2 * (j - h)>>, p[j], j)]

FDen(op, n) ==
  LET up == op.r = 1
      w == [j \in 1..n |-> j - 1]
      m == Len(FAxes(op.g)) * n
  IN CASE op.g = "fring" -> RingF(n, 1, up, FALSE)
       [] op.g = "fring2" -> RingF(n, 2, up, FALSE)
       [] op.g = "fringcz" -> RingF(n, 1, up, TRUE)
       [] op.g = "fnncnot" -> Nearest(n, up, FALSE)
       [] op.g = "fnncz" -> Nearest(n, up, TRUE)
       [] op.g = "fall2all" -> All2All(n, up)
       [] op.g = "fH" -> [j \in 1..n |-> Fix("H", <<>>, <<j - 1>>)]
       [] op.g \in FRot -> LayerFrom(FAxes(op.g), w, op.p, 1, 0)
       [] op.g = "fRxx" -> Brick("rxx", n, op.p)
       [] op.g = "fRyy" -> Brick("ryy", n, op.p)
       [] op.g = "fRzz" -> Brick("rzz", n, op.p)
       [] op.g \in FBel -> LayerFrom(FAxes(op.g), w, op.p, 1, 0) \o RingF(n, 1, TRUE, FALSE)
       [] op.g \in FBel2 -> LayerFrom(FAxes(op.g), w, op.p, 1, 0) \o RingF(n, 1, TRUE, FALSE)
                            \o LayerFrom(FAxes(op.g), w, op.p, 1, m) \o RingF(n, 1, TRUE, FALSE)
       [] op.g \in FSel -> LayerFrom(FAxes(op.g), w, op.p, 1, 0) \o RingF(n, 1, TRUE, FALSE)
                           \o LayerFrom(FAxes(op.g), w, op.p, 1, m) \o RingF(n, 2, TRUE, FALSE)
=============================================================================
