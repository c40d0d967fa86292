------------------------------ MODULE PurityTrace ------------------------------
(***************************************************************************)
(* Accepts exactly the recorded sessions in which the code kept the promise*)
(* of Purity.tla. A recorded session is [n, pool, ev, obs]: the events and,*)
(* after each of them (and at the start), what was observed, as numbers of *)
(* classes of indistinguishable values: res (the returned value, 0: none), *)
(* gate, circ, slot (how each object looks), args (all arguments).         *)
(***************************************************************************)
EXTENDS Purity
CONSTANTS TraceFile

Traces == ndJsonDeserialize(TraceFile)
ASSUME Traces # <<>>

VARIABLES t, i, memo, ok
tvars == <<vars, t, i, memo, ok>>
T == Traces[t]

(* the observations at a point, keyed by terms *)
Seen(st, ob) ==
  { << <<"gate", GTerm(st, g)>>, ob.gate[g] >> : g \in DOMAIN ob.gate }
  \cup { << <<"circ", st.circs[c]>>, ob.circ[c] >> : c \in DOMAIN ob.circ }
  \cup { << <<"slot", st.mval[m]>>, ob.slot[m] >> : m \in DOMAIN ob.slot }
  \cup { << <<"args">>, ob.args >> }
Merge(mm, S) ==        \* a function of the keys, unless the observations contradict one another
  [k \in DOMAIN mm \cup {x[1] : x \in S} |-> IF k \in DOMAIN mm THEN mm[k] ELSE (CHOOSE x \in S : x[1] = k)[2]]
Agrees(mm, S) == \A x \in S : mm[x[1]] = x[2]

TInit == /\ t \in DOMAIN Traces /\ i = 0
         /\ phase = "open" /\ n = Traces[t].n /\ pool = Traces[t].pool /\ todo = 0 /\ hist = <<>>
         /\ s = Start(Len(Traces[t].pool))
         /\ LET S == Seen(s, Traces[t].obs[1]) IN memo = Merge(<<>>, S) /\ ok = Agrees(memo, S)
TNext == /\ i < Len(T.ev) /\ ok
         /\ LET e == T.ev[i + 1]
                ob == T.obs[i + 2]
                k == Key(s, e)
                st == Step(pool, n, s, e)
                S == Seen(st, ob) \cup (IF k = <<>> THEN {} ELSE {<<k, ob.res>>})
            IN /\ s' = st
               /\ memo' = TLCEval(Merge(memo, S))
               /\ ok' = Agrees(memo', S)
         /\ i' = i + 1
         /\ UNCHANGED <<phase, n, pool, todo, hist, t>>
TSpec == TInit /\ [][TNext]_tvars

Accepted == ok
=============================================================================
