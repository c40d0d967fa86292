------------------------------- MODULE Requests -------------------------------
(***************************************************************************)
(* Every request for an operation on a small register - well formed or     *)
(* not - with the verdict: which evaluation paths serve it and which       *)
(* refuse it. Wires range one past both ends of the register and may       *)
(* repeat; numbers of parameters and repetitions range around the right    *)
(* ones. An operation is served on a path iff the request is well formed   *)
(* and the operation supports the path; a refused request changes nothing. *)
(***************************************************************************)
EXTENDS Verdicts, Json, CSV
CONSTANTS Kinds, Sizes, Over,   \* how far wires reach outside the register
          MaxLen,               \* longest wire list
          Parts, Part, OutFile

VARIABLES phase, n, req         \* req: [g, w, np, r]
vars == <<phase, n, req>>

(* the lengths of wire lists that are tried (layers need at least one wire) *)
Lens(g, m) ==
  CASE g \in Fixed1 \cup Param1 \cup {"u3"} -> {1}
    [] g \in Fixed2 \cup Param2 \cup {"cu3"} -> 1..3
    [] g = "toffoli" -> 2..4
    [] OTHER -> 1..(m + 1)
Tuples(g, m, k) ==
  IF ~Sim THEN [1..k -> (-Over)..(m - 1 + Over)]
  ELSE IF k > m \/ RandomElement(1..4) = 1
  THEN {[j \in 1..k |-> RandomElement((-Over)..(m - 1 + Over))]}
  ELSE UNION { IF RandomElement(1..2) = 1 THEN {w}           \* proper, or proper but for one wire
               ELSE {[w EXCEPT ![RandomElement(1..k)] = RandomElement((-Over)..(m - 1 + Over))]}
               : w \in PickWires(g, m, k) }

Init == phase = "new" /\ n = 0 /\ req = <<>>
Size == /\ phase = "new" /\ phase' = "size" /\ n' \in Pick(Sizes) /\ UNCHANGED req
Reps(g) == IF g = "BEL" THEN 0..2 ELSE {1}
Nums(g, w, r) ==          \* numbers of parameters tried: the right one, and for proper wires all around it
  LET c == NumParams(g, Len(w), r)
  IN IF NumParams(g, Len(w), 1) > 0 /\ GoodWires(g, w, n) THEN {x \in (c - 4)..(c + 4) : x >= 0} ELSE {c}
Code(w) == LET RECURSIVE f(_)
               f(j) == IF j > Len(w) THEN 0 ELSE (2 * j + 1) * (w[j] + 3) + f(j + 1)
           IN f(1)
Ask == /\ phase = "size" /\ phase' = "done"
       /\ \E g \in Pick(Kinds) : \E k \in Pick({x \in Lens(g, n) : x <= MaxLen}) : \E w \in Tuples(g, n, k) :
             /\ (Sim \/ Code(w) % Parts = Part)
             /\ \E r \in Pick(Reps(g)) : \E c \in Pick(Nums(g, w, r)) : req' = [g |-> g, w |-> w, np |-> c, r |-> r]
       /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, req |-> req', want |-> Verdict(req', n)])>>, OutFile)
       /\ UNCHANGED n
Next == Size \/ Ask
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
(* the verdict agrees with the denotation: a request is served iff its denotation exists on the register *)
Elements(q) == Den(OpR(q.g, q.w, [j \in 1..q.np |-> AngOm(j % 8)], q.r))
Placed(es, m) == \A j \in DOMAIN es :
  LET S == {es[j].c[i] : i \in DOMAIN es[j].c} T == {es[j].t[i] : i \in DOMAIN es[j].t}
  IN /\ S \cap T = {} /\ (S \cup T) \subseteq 0..(m - 1)
     /\ Cardinality(S) = Len(es[j].c) /\ Cardinality(T) = Len(es[j].t)
ServedIsMeaningful == (phase = "done" /\ WF(req, n)) => Placed(Elements(req), n)
SupportImpliesServed == phase = "done" => LET v == Verdict(req, n) IN (v.tn \/ v.dag) => v.u
(* whatever is refused for its wires has no denotation: some elementary operation misses the register or meets itself *)
RefusedIsMeaningless ==
  (phase = "done" /\ req.g \in GateKinds \ {"mcc"}) =>
    ((Len(req.w) \in Arity(req.g, Len(req.w)) /\ ~GoodWires(req.g, req.w, n)) =>
        ~Placed(Elements([req EXCEPT !.np = NumParams(req.g, Len(req.w), 1)]), n))
=============================================================================
