------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of the library: a circuit is built, reparametrised and        *)
(* cleared, and at every point has a definite meaning - the exact states   *)
(* psi that the recorded program maps the initial states to. One action    *)
(* per public operation that changes anything; observers (unitary, MPS and *)
(* contraction evolution, expectation values, gradients, daggers) change   *)
(* nothing and their values are functions of the state, exported by Finish.*)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Kinds,     \* instruction kinds in use
          Sizes,     \* numbers of qubits
          Lengths,   \* numbers of steps of a session
          Batch,     \* numbers of initial states carried along
          Inits,     \* classes of initial vectors
          Acts,      \* subset of {"upd", "clr"}: actions besides Add
          UpdW,      \* weight (out of 12) of updates among the steps
          Want,      \* observations exported at the end
          MaxBits,   \* size bound after every step (24 when quadratic observables are wanted)
          EachStep,  \* BOOLEAN: export the states after every step
          OutFile    \* "" or the file behaviours are exported to

VARIABLES phase,     \* "new", "open", "done"
          n,         \* number of qubits
          init,      \* sequence of initial integer vectors
          circ,      \* the current program: sequence of operations with current parameters
          reg,       \* the circuit's parameter register: number of parameters per position
          psi,       \* sequence of exact states, one per initial vector
          todo,      \* steps left
          hist       \* the events so far (exported, replayed against the code)
vars == <<phase, n, init, circ, reg, psi, todo, hist>>

n2(v) == Norm2(v)
St0(v) == St(n, 0, 1, v)
Zero8(op) == op.p # <<>>

(* run a program from a state, refusing (ok = FALSE) when the numbers would get too large *)
RECURSIVE RunOps(_, _, _, _)
RunOps(st, m, ops, j) ==
  IF j > Len(ops) THEN [ok |-> Bits(m, st) <= MaxBits, st |-> st]
  ELSE IF Bits(m, st) + Cost(ops[j]) > 56 THEN [ok |-> FALSE, st |-> st]
  ELSE RunOps(Run(st, Den(ops[j])), m, ops, j + 1)
RunAll(sts, ops) == TLCEval([b \in DOMAIN sts |-> RunOps(sts[b], n2(init[b]), ops, 1)])
AllOK(rs) == \A b \in DOMAIN rs : rs[b].ok
States(rs) == [b \in DOMAIN rs |-> rs[b].st]

Shot(sts) == IF EachStep THEN [b \in DOMAIN sts |-> [k |-> sts[b].k, d |-> sts[b].d, v |-> sts[b].v]] ELSE <<>>
RECURSIVE SumSeq(_, _)
SumSeq(s, j) == IF j > Len(s) THEN 0 ELSE s[j] + SumSeq(s, j + 1)
Book(c, rg) == [len |-> Len(c), np |-> SumSeq(rg, 1), reg |-> rg,
                tn |-> \A j \in DOMAIN c : SupportsTN(c[j], n)]

Init == /\ phase = "new" /\ n = 0 /\ init = <<>> /\ circ = <<>> /\ reg = <<>>
        /\ psi = <<>> /\ todo = 0 /\ hist = <<>>

RECURSIVE PickInits(_, _)
PickInits(m, b) ==
  IF b = 0 THEN {<<>>}
  ELSE UNION { UNION { {<<v>> \o s : s \in PickInits(m, b - 1)} : v \in PickVec(c, m) }
               : c \in Pick(Inits) }

Open == /\ phase = "new"
        /\ \E m \in Pick(Sizes) : \E b \in Pick(Batch) : \E l \in Pick(Lengths) :
           \E iv \in PickInits(m, b) :
             /\ n' = m /\ init' = iv /\ todo' = l
             /\ psi' = [j \in 1..b |-> St(m, 0, 1, iv[j])]
             /\ phase' = "open" /\ circ' = <<>> /\ reg' = <<>>
             /\ hist' = <<>>

(* Circuit.add / the convenience methods: append one operation *)
AddOp(op, rs) ==
  /\ circ' = Append(circ, op)
  /\ reg' = Append(reg, NumParams(op.g, Len(op.w), op.r))
  /\ psi' = States(rs)
  /\ hist' = Append(hist, [a |-> "add", op |-> op, i |-> 0, psi |-> Shot(States(rs)), info |-> Info(op),
                           book |-> Book(Append(circ, op),
                                         Append(reg, NumParams(op.g, Len(op.w), op.r)))])
Skip == UNCHANGED <<circ, reg, psi, hist>>
Add == \E g \in Pick({k \in Kinds : Arity(k, n) # {}}) : \E op \in PickOp(g, n) :
         \E pf \in PickFree(Len(op.p)) :
         LET r1 == RunAll(psi, <<op>>)
             op2 == [op EXCEPT !.p = pf]
             r2 == RunAll(psi, <<op2>>)
         IN IF AllOK(r1) THEN AddOp(op, r1)
            ELSE IF AllOK(r2) THEN AddOp(op2, r2) ELSE Skip

(* params_update on one gate of the circuit *)
Upd == \E i \in Pick({j \in DOMAIN circ : circ[j].p # <<>>}) :
       \E p \in PickParams(Len(circ[i].p), IF circ[i].g \in GateKinds THEN 60 ELSE GenPct) :
         LET c2 == [circ EXCEPT ![i].p = p]
             rs == RunAll([b \in DOMAIN init |-> St0(init[b])], c2)
         IN IF AllOK(rs)
            THEN /\ circ' = c2 /\ psi' = States(rs) /\ reg' = reg
                 /\ hist' = Append(hist, [a |-> "upd", op |-> c2[i], i |-> i,
                                          psi |-> Shot(States(rs)), info |-> Info(c2[i]),
                                          book |-> Book(c2, reg)])
            ELSE Skip

(* Circuit.clear *)
Clr == /\ circ' = <<>> /\ reg' = <<>>
       /\ psi' = [b \in DOMAIN init |-> St0(init[b])]
       /\ hist' = Append(hist, [a |-> "clr", op |-> Op("H", <<0>>, <<>>), i |-> 0,
                                psi |-> Shot([b \in DOMAIN init |-> St0(init[b])]),
                                info |-> <<>>, book |-> Book(<<>>, <<>>)])

Step == /\ phase = "open" /\ todo > 0 /\ todo' = todo - 1
        /\ \E r \in Pick(1..12) :
             CASE r <= UpdW /\ "upd" \in Acts /\ (\E j \in DOMAIN circ : circ[j].p # <<>>) -> Upd
               [] r = 12 /\ "clr" \in Acts -> Clr
               [] OTHER -> Add
        /\ UNCHANGED <<phase, n, init>>

(* --------------------------------------------------------- observers *)
Nums(sts) == [b \in DOMAIN sts |-> [k |-> sts[b].k, d |-> sts[b].d, v |-> sts[b].v]]
ZVals == [b \in DOMAIN psi |-> [q \in 1..n |-> Expect(psi[b], << <<1, << <<q - 1, "Z">> >> >> >>)]]
ObsVals(obs) == [o |-> obs, e |-> [b \in DOMAIN psi |-> Expect(psi[b], obs)]]
Grad(obs) ==      \* exact derivative of <obs> on the first state, per operation and parameter
  LET m == ObsApply(obs, psi[1], 1)
      D(i, q) == RunFrom(RunD(RunFrom(St0(init[1]), CircEls(SubSeq(circ, 1, i - 1)), 1),
                              Den(circ[i]), q, 1),
                         CircEls(SubSeq(circ, i + 1, Len(circ))), 1)
      G(i, q) == LET dp == Normalise(D(i, q))
                     f == InnerF(m, dp)
                 IN Frac(RScale(1, RAdd(f.x, RConj(f.x))), f.k, f.d)
  IN [o |-> obs, e |-> Expect(psi[1], obs),
      g |-> [i \in DOMAIN circ |-> [q \in 1..Len(circ[i].p) |-> G(i, q)]]]
(* reduced density matrix of state b on the qubits not in tr (sorted), entries row by row *)
Masks(S) == LET RECURSIVE sm(_)
                sm(T) == IF T = {} THEN {0}
                         ELSE LET q == CHOOSE x \in T : TRUE
                              IN UNION {{y, y + 2^(n - 1 - q)} : y \in sm(T \ {q})}
            IN sm(S)
RECURSIVE Spread(_, _, _)
Spread(i, ks, j) ==     \* index of the register whose kept qubits ks (ascending) spell i
  IF j > Len(ks) THEN 0
  ELSE ((i \div 2^(Len(ks) - j)) % 2) * 2^(n - 1 - ks[j]) + Spread(i, ks, j + 1)
SortedKeep(tr) == SelectSeq([q \in 1..n |-> q - 1], LAMBDA x : x \notin tr)
RECURSIVE SumSet(_, _, _, _)
SumSet(S, st, i, j) == IF S = {} THEN R0
                       ELSE LET x == CHOOSE y \in S : TRUE
                            IN RAdd(Dens(st, i + x, j + x), SumSet(S \ {x}, st, i, j))
Reduced(st, tr) ==
  LET ks == SortedKeep(tr)
      D == 2^Len(ks)
      M == Masks(tr)
  IN [k |-> 2 * st.k, d |-> st.d * st.d, dim |-> D,
      m |-> TLCEval([x \in 1..(D * D) |->
              SumSet(M, st, Spread((x - 1) \div D, ks, 1), Spread((x - 1) % D, ks, 1))])]
Rev(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]

Obs1(x) == \* a single Pauli on one qubit
  { << <<1, << <<q, s>> >> >> >> : q \in Pick(0..(n - 1)), s \in Pick({"X", "Y", "Z"}) }

Finish ==
  /\ phase = "open" /\ todo = 0 /\ phase' = "done"
  /\ \E o1 \in PickObs(n, 1) : \E o2 \in PickObs(n, 2) : \E o3 \in Obs1(n) :
     \E tr \in PickSeq(0..(n - 1), IF "rdm" \in Want THEN RandomElement(0..n) ELSE 0) :
     LET rev == RunAll([b \in DOMAIN init |-> St0(init[b])], Rev(circ))
         fin == [n |-> n, init |-> init, ev |-> hist, psi |-> Nums(psi),
                 z |-> IF "z" \in Want THEN ZVals ELSE <<>>,
                 obs |-> IF "exp" \in Want THEN <<ObsVals(o1), ObsVals(o2)>> ELSE <<>>,
                 grad |-> IF "grad" \in Want THEN <<Grad(o2)>> ELSE <<>>,
                 gradp |-> IF "gradp" \in Want THEN <<Grad(o3)>> ELSE <<>>,
                 inner |-> IF "inner" \in Want
                           THEN [a \in DOMAIN psi |-> [b \in DOMAIN psi |-> InnerF(psi[a], psi[b])]]
                           ELSE <<>>,
                 rdm |-> IF "rdm" \in Want
                         THEN LET suf == [j \in DOMAIN tr |-> n - Len(tr) + j - 1]
                                  R(t) == [tr |-> t, r |-> [b \in DOMAIN psi |-> Reduced(psi[b], {t[j] : j \in DOMAIN t})]]
                              IN <<R(tr), R(suf)>>
                         ELSE <<>>,
                 rev |-> IF "rev" \in Want /\ AllOK(rev) THEN <<Nums(States(rev))>> ELSE <<>>,
                 dag |-> IF "dag" \in Want
                         THEN [i \in DOMAIN circ |->
                                 LET s == Run(St0(init[1]), AdjSeq(Den(circ[i])))
                                 IN [has |-> HasDagger(circ[i]), tn |-> SupportsTN(circ[i], n),
                                     k |-> s.k, d |-> s.d, v |-> s.v]]
                         ELSE <<>>,
                 dagp |-> IF "dagp" \in Want
                          THEN [i \in DOMAIN circ |-> [has |-> HasDagger(circ[i]),
                                                       op |-> DagOp(circ[i]), map |-> DagMap(circ[i])]]
                          ELSE <<>>,
                 circ |-> circ]
     IN OutFile # "" => CSVWrite("%1$s", <<ToJson(fin)>>, OutFile)
  /\ UNCHANGED <<n, init, circ, reg, psi, todo, hist>>

Next == Open \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------- properties of the model *)
TypeOK == /\ phase \in {"new", "open", "done"}
          /\ Len(reg) = Len(circ) /\ Len(psi) = Len(init)
(* evolution is unitary: the squared norm never changes *)
NormKept == \A b \in DOMAIN psi :
              LET f == InnerF(psi[b], psi[b])
              IN f.x = RTimesSqrt2Pow(f.k, RInt(f.d * n2(init[b])))
(* the states are what the recorded program makes of the initial states *)
StateIsProgram == \A b \in DOMAIN psi : SameState(psi[b], Run(St0(init[b]), CircEls(circ)))
(* running the inverse operations backwards returns to the initial states *)
DaggerUndoes ==
  (\A j \in DOMAIN circ : HasDagger(circ[j])) =>
     \A b \in DOMAIN psi :
        SameState(Run(psi[b], CircEls([j \in DOMAIN circ |-> DagOp(circ[Len(circ) + 1 - j])])),
                  St0(init[b]))
BookOK == \A j \in DOMAIN circ : reg[j] = Len(circ[j].p)
=============================================================================
