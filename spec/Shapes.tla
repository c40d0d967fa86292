-------------------------------- MODULE Shapes --------------------------------
(* Every request for a value with every shape of its arguments, and whether it is served. *)
EXTENDS Verdicts, Json, CSV
CONSTANTS Fns, Sizes, Parts, Part, OutFile
VARIABLES phase, n, req
vars == <<phase, n, req>>
Init == phase = "new" /\ n = 0 /\ req = <<>>
Size == /\ phase = "new" /\ phase' = "size" /\ n' \in Pick(Sizes) /\ UNCHANGED req
RECURSIVE Sum(_, _)
Sum(s, j) == IF j > Len(s) THEN 0 ELSE (s[j] + 3) * (j + 1) + Sum(s, j + 1)
Request ==
  /\ phase = "size" /\ phase' = "done"
  /\ \E f \in Pick(Fns) : \E q \in Pick(Asks(f, n)) :
       (Sim \/ (Sum(q.s, 1) + Sum(q.m, 1) + Sum(q.l, 1) + q.x) % Parts = Part) /\ req' = q
  /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, ask |-> req', ok |-> ShapeOK(req', n)])>>, OutFile)
  /\ UNCHANGED n
Next == Size \/ Request
Spec == Init /\ [][Next]_vars

(* properties: a register of n qubits is described by 2^n amplitudes, whatever the function *)
Amplitudes == (phase = "done" /\ ShapeOK(req, n)) =>
  CASE req.f \in VectorFns \cup {"measure", "TN_contract_evolution", "cir_expectation"} -> Prod(req.s, 1) = 2^n
    [] req.f \in MatrixFns \cup TraceFns \cup {"measure_rho"} -> Prod(req.s, 1) = 4^n
    [] OTHER -> TRUE
(* every function serves some request and refuses some *)
Both == phase = "size" => \A f \in Fns : (\E q \in Asks(f, n) : ShapeOK(q, n)) /\ (\E q \in Asks(f, n) : ~ShapeOK(q, n))
=============================================================================
