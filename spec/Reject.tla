-------------------------------- MODULE Reject --------------------------------
(***************************************************************************)
(* Sessions in which good requests are interleaved with requests that must *)
(* be refused: malformed operations, operations on a path they do not      *)
(* support, values of arguments of the wrong shape, updates with a wrong   *)
(* number of parameters. A refusal is a stuttering step of the session:    *)
(* circuit, register and evolved states are what they were.                *)
(***************************************************************************)
EXTENDS Session, Verdicts
CONSTANTS BadW,       \* weight (out of 12) of refused requests
          AllK,       \* kinds tried in malformed requests (Kinds: the good ones, all with matrix-product support)
          Fns
ASSUME Sim

VARIABLE last         \* what the last step was: "new", "good", "bad"
rvars == <<vars, last>>

RandWires(k) == [j \in 1..k |-> RandomElement((-2)..(n + 1))]
NearWires(g, k) == UNION { {[w EXCEPT ![RandomElement(1..k)] = RandomElement((-2)..(n + 1))], w} : w \in PickWires(g, n, k) }
TryWires(g) ==
  UNION { IF k > n THEN {RandWires(k)} ELSE Pick({RandWires(k)} \cup NearWires(g, k))
          : k \in Pick(CASE g \in Fixed1 \cup Param1 \cup {"u3"} -> {1}
                         [] g \in Fixed2 \cup Param2 \cup {"cu3"} -> {1, 2, 2, 2, 3}
                         [] g = "toffoli" -> {2, 3, 4}
                         [] OTHER -> 1..(n + 1)) }
TryReq == { [g |-> g, w |-> w, np |-> c, r |-> r] :
              <<g, w, r, c>> \in UNION { UNION { UNION {
                 { <<g, w, r, c>> : c \in Pick({x \in {NumParams(g, Len(w), r) - 1, NumParams(g, Len(w), r), NumParams(g, Len(w), r) + 1,
                                                       NumParams(g, Len(w), r) + Len(w)} :
                                                 x >= 0 /\ (NumParams(g, Len(w), 1) = 0 => x = 0)}) }
                 : r \in IF g = "BEL" THEN Pick(0..2) ELSE {1} } : w \in TryWires(g) } : g \in Pick(AllK) } }

Note(e) == hist' = Append(hist, e) /\ last' = "bad" /\ UNCHANGED <<circ, reg, psi>>
None == UNCHANGED <<circ, reg, psi, hist, last>>
BadOp == \E q \in TryReq : IF Verdict(q, n).tn THEN None
                           ELSE Note([a |-> "badop", req |-> q, want |-> Verdict(q, n)])
BadAsk == \E f \in Pick(Fns) : \E q \in Pick({x \in Asks(f, n) : ~ShapeOK(x, n)}) : Note([a |-> "badask", ask |-> q])
BadUpd == IF \A j \in DOMAIN circ : circ[j].p = <<>> THEN None
          ELSE \E i \in Pick({j \in DOMAIN circ : circ[j].p # <<>>}) :
               \E c \in Pick({x \in 0..(Len(circ[i].p) + 4) : x # Len(circ[i].p)}) : Note([a |-> "badupd", i |-> i, np |-> c])
Good == /\ last' = "good"
        /\ \E r \in Pick(1..12) : IF r <= UpdW /\ (\E j \in DOMAIN circ : circ[j].p # <<>>) THEN Upd ELSE Add
RStep == /\ phase = "open" /\ todo > 0 /\ todo' = todo - 1
         /\ \E r \in Pick(1..12) : IF r > BadW THEN Good
                                   ELSE \E k \in Pick(1..4) : CASE k <= 2 -> BadOp [] k = 3 -> BadAsk [] OTHER -> BadUpd
         /\ UNCHANGED <<phase, n, init>>
RInit == Init /\ last = "new"
RNext == RStep \/ ((Open \/ Finish) /\ last' = "new")
RSpec == RInit /\ [][RNext]_rvars

(* a refused request changes nothing *)
RefusalsStutter == [][last' = "bad" => UNCHANGED <<n, init, circ, reg, psi>>]_rvars
=============================================================================
