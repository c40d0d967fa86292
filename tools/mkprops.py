"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
G='deepquantum/gates/qoperator.py'; L='deepquantum/layers/qlayers.py'; C='deepquantum/gates/qcircuit.py'
T='deepquantum/gates/qtensornetwork.py'; M='deepquantum/gates/qmath.py'; E_='deepquantum/embeddings/qembedding.py'
S='deepquantum/embeddings/qstate.py'; V='deepquantum/nn/modules/quanv.py'; Q='deepquantum/gates/qgate.py'; F='deepquantum/layers/qlayer.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop('C01','Every gate expands to its textbook unitary on the listed qubits',
 "For every gate of the library (H, X, Y, Z, rx, ry, rz, u1, u3, rxx, ryy, rzz, cnot, cz, cphase, cu3, SWAP, toffoli, multi-controlled X), every register size, every ordered choice of distinct qubits and every real angle, the expanded dense matrix equals the textbook unitary: rotations are exp(-i*theta/2*P), u3(theta,phi,lambda)=Rz(phi)Ry(theta)Rz(lambda), u1 and cphase are diagonal phases exp(i*theta), controls come first in the wire list and the target last, qubit 0 is the most significant bit of the index, and all other qubits are untouched. The small matrix a gate carries is the same operation on its own wires in the order listed.",
 ['inputs','configurations'],"all gate kinds x register sizes x ordered tuples of distinct wires (adjacent, distant, reversed) x angles (negative, beyond one period, zero, generic; given as number or tensor)",
 "The tests never compare an expanded gate with an independent definition; they only cross-check the library's own paths on a few wire choices.",
 [G],[('U_expand of each gate class',G),('gate_expand_1toN, two_qubit_control_gate, multi_control_gate',G)],
 [('matrix/params/wires','what the gate denotes',G)],['U_expand()','.matrix'])
prop('C02','Every layer expands to the ordered product of its documented gates',
 "For every layer (Hadamard layer, the XYZ, ZYX, YZY, XZX, XZ, ZX rotation layers, the CNOT rings with hop one and two and the inverse ring, the repeated entangling layer) and for every subset and order of wires, register size, repetition count and parameters given as list or tensor, the dense matrix equals the product, in time order, of the elementary gates named by the layer, parameters being consumed wire by wire in the order of the wire list. The same holds for the free-standing layer functions (rotation, ring, ladder, all-to-all, Rxx/Ryy/Rzz brick and composed entangling layers, both directions where selectable) of the older functional module.",
 ['inputs','configurations'],"all layer kinds x register sizes x wire subsets and orders (a fused code path is used for the full ordered register, another for the rest) x repetitions x angles",
 "Tests use a couple of fixed register sizes with random parameters and compare the library with itself.",
 [L,F],[('_cal_single_gates / U_expand',L),('_gate_fusion_U_expand',L),('functional layers',F)],[],['U_expand()','layer functions'])
prop('C03','A circuit is the time-ordered product of what was added to it',
 "The unitary of a circuit equals the product of the textbook unitaries of the operations in the order they were added (last added leftmost; reversed when the other multiplication order is requested), whether they were added as objects or through the convenience methods, and is the identity for an empty circuit. The default initial state is the all-zero basis state.",
 ['programs','histories'],"all programs (sequences of gates and layers with any wires and angles) on any register size",
 "Quantifies over all programs; tests build a handful of fixed circuits and mostly check shapes or print results.",
 [C,G,L],[('Circuit.U, Circuit.add, convenience methods, state_init',C)],[('gate','sequence of operations',C)],['Circuit.U()','Circuit.state_init()'])
prop('C04','State vector and matrix-product forms are lossless and well formed',
 "Converting any state vector (normalised or not, real or complex, product, entangled or nearly product with small Schmidt coefficients) to a matrix product state and back returns the same vector up to single-precision rounding, in row-vector form and in rank-n form, and the rank-n reshaping used by tensor contraction keeps every amplitude at its place. The matrix product state has one tensor per qubit with physical dimension 2, matching bonds, boundary bonds 1 and no bond larger than the smaller of the two sides allows; vectors of the wrong shape are rejected.",
 ['inputs'],"all state vectors of all register sizes, including those at and around the singular-value cut-off",
 "Tests convert random (hence full-rank, generic) vectors only and print the result.",
 [T],[('StateVec2MPS, MPS2StateVec, MatrixProductState',T)],[('MPS','list of rank-3 tensors',T)],['StateVec2MPS','MPS2StateVec','MatrixProductState'])
prop('C05','Matrix-product evolution equals dense evolution',
 "For every program whose operations claim tensor-network support and every initial state, evolving the matrix product state operation by operation yields, after every step, the state the dense unitaries yield, and the evolved object is again a well-formed matrix product state. A circuit claims support exactly when all its operations do, an operation that claims support does evolve, and evolution through one that does not is refused.",
 ['programs','inputs'],"all programs of supported gates and layers (adjacent and distant wires in any order, which take different swap routes), all initial states including low-rank and degenerate ones",
 "Tests compare one fixed circuit family on random states; swap routing depends on the wire tuple and truncation on the state's entanglement history.",
 [C,G,L,T],[('TN_operation of each gate and layer',G),('SWAP routing and TensorDecompAfterTwo/ThreeQbitGate',T),('TN_evolution, TN_check',C)],[('MPS','list of rank-3 tensors',T)],['TN_evolution','TN_operation','TN_check'])
prop('C06','Tensor contraction evolution equals dense evolution',
 "For every program whose operations claim tensor-network support and every initial state given as a rank-n tensor, contracting operation by operation yields the amplitudes of the dense evolution, each at its place in the rank-n tensor. Evolution through an operation without support, or of a tensor of the wrong rank, is refused.",
 ['programs','inputs'],"all programs of supported operations, all wire orders, all initial states",
 "The axis permutations differ per wire order and register size; tests exercise few of them and check only one final state.",
 [G,L,C],[('TN_contract of each gate and layer',G),('TN_contract_evolution',C)],[],['TN_contract','TN_contract_evolution'])
prop('C07','A batch evolves exactly as its members do one by one',
 "Contracting a batch of states through a program gives, for every member, the state obtained by evolving this member alone, whatever the batch size (including one, or equal to the number of qubits or two) and whatever the other members are. The same holds for batched expectation values: every entry is the value for its own state.",
 ['programs','inputs','configurations'],"all programs, batch sizes and batch contents",
 "Tests use one batch size; axis mix-ups between batch and qubit axes show only for particular sizes and wire orders.",
 [G,L,C,M],[('TN_contract(batch_mod=True)',G),('expval on columns',M)],[],['TN_contract_evolution(batch_mod=True)','expval'])
prop('C08','The inverse of every operation undoes it on every path',
 "For every operation that defines an inverse, with any wires, angles and parameter form, the inverse's matrix is the conjugate transpose of the operation's matrix, and applying the operation and then its inverse restores the state on the dense, matrix-product and contraction paths alike. Taking an inverse changes neither the operation nor its parameters, the inverse of the inverse is the operation again, and an inverse taken after a parameter update inverts the updated operation.",
 ['inputs','programs'],"all operations with an inverse x wires x parameters x evolution path x states; whole programs undone by the reversed inverses",
 "The existing test tries each operation once on fixed wires.",
 [G,L],[('operation_dagger',G),('operation_dagger of layers, ring_of_cnot_dagger',L)],[],['operation_dagger()'])
prop('C09','Updating parameters equals building afresh with the new ones',
 "After the parameters of an operation are updated with a tensor of angles, any number of times, the operation is indistinguishable from a newly built one with those angles: same reported parameters, dense matrix, matrix-product and contraction evolution and inverse; nothing of older parameters remains. Operations without parameters are unaffected by an update, and a circuit holding the operation uses the new angles at once.",
 ['histories','inputs'],"all operations x all sequences of updates, interleaved with evaluation",
 "Stale state is visible only for particular update/evaluate orders; tests update once through one path.",
 [G,L,C],[('params_update',G),('params_update of layers',L)],[('params, matrix, u_matrix, part1_lst','derived from the parameters',G)],['params_update','U_expand','TN_operation','TN_contract','info'])
prop('C10','Circuit bookkeeping always matches its contents',
 "After every history of additions, updates and clears the circuit's list of operations, its parameter count, its parameter record (one entry per operation, empty exactly for operations without parameters, else the parameters it was added with) and the description each operation reports (label, control and target qubits, current parameters) agree with what was added since the last clear. Adding an operation changes no earlier entry, and a cleared circuit is indistinguishable from a new one.",
 ['histories'],"all histories of add / convenience method / update / clear",
 "Tests never clear a circuit and read at most the parameter count of one circuit.",
 [C,G,L],[('Circuit.add, Circuit.clear',C),('info',G)],[('gate, cir_params, cir_num_params','the program and its parameter register',C)],['Circuit.gate','Circuit.cir_params','Circuit.cir_num_params','info()'])
prop('C11','Expectation values are exact on every path',
 "The expectation value a circuit reports for a Hermitian observable in its final state equals <psi|M|psi> of the exact final state, is the same whether tensor networks are used, switched off, or unavailable for an operation, and is real. The expectation of local observables on any set of distinct qubits of a matrix product state, and the inner product <b|a> of two matrix product states of any bond dimensions, equal the values for the corresponding vectors.",
 ['programs','inputs'],"all programs, initial states, Pauli-sum observables, sets of local observables, pairs of states",
 "Tests compare two library paths on one circuit; complex phases, conjugation side and boundary cases (one qubit, bond dimension 1) are not sampled.",
 [C,T],[('cir_expectation',C),('MPS_expec, MPS_inner_product',T)],[],['Circuit.cir_expectation','MPS_expec','MPS_inner_product'])
prop('C12','Measurement returns the Z expectation of the requested qubits',
 "Measuring a state vector or a density matrix returns, in the order requested (one qubit, a list of qubits, or all by default), the expectation of Pauli Z on each requested qubit, real, and equal for a pure state and its density matrix. The general expectation function returns <psi|M|psi> for every column of a batch of vectors and Tr(rho M) for a density matrix of trace one, and rejects one of another trace.",
 ['inputs'],"all pure and mixed states, selections and orders of qubits, observables",
 "Tests print values; selection by a single index, by reordered lists and mixed states are not sampled.",
 [M],[('measure, _Zmeasure, expval',M)],[],['measure','expval'])
prop('C13','Parameter-shift gradients are exact and leave the circuit as it was',
 "For every circuit, initial state and observable, the parameter-shift gradient equals, entry by entry in circuit order, the exact derivative of the expectation value with respect to each current parameter, for all parametrised operations including phase, controlled and layered ones. Afterwards every operation has exactly the parameters and the unitary it had before.",
 ['programs','inputs','histories'],"all circuits with parameters (also after updates), states, observables",
 "The test compares three methods on one circuit to a printed tolerance and does not check that the circuit is restored.",
 [C],[('parameter_shift.cal_params_grad',C)],[('cir.gate[i].params','temporarily shifted',C)],['parameter_shift.cal_params_grad'])
prop('C14','The one-sweep matrix-product gradient equals the exact gradient',
 "For every circuit whose operations all support tensor networks and have inverses and for every single-qubit Pauli observable, the gradient computed from the saved intermediate matrix product states equals the exact derivative of the expectation value with respect to each current parameter, in circuit order. The final state returned by the sweep is the circuit's final state and the circuit is unchanged afterwards.",
 ['programs','inputs'],"all such circuits, states, observables",
 "One fixed circuit in the tests; which intermediate states are saved depends on the pattern of parametrised and fixed operations.",
 [C],[('parameter_shift.save_mid_MPS, cal_params_grad2',C)],[('save_dict','intermediate states',C)],['save_mid_MPS','cal_params_grad2'])
prop('C15','Automatic differentiation yields exact gradients',
 "For every program with trainable parameters, differentiating an expectation value computed through the circuit's unitary or through tensor contraction with the automatic differentiation of the framework gives the exact derivative with respect to every parameter, and never silently misses one. This also holds for parameters set by an update, for inverses of operations with trainable parameters, and for measured values.",
 ['programs','inputs'],"all programs, parameters, states and observables on the dense and the contraction path",
 "Training tests only check that a loss goes down; a single detached parameter does not show.",
 [G,L,C,M],[('matrices built from parameter tensors',G),('U, TN_contract_evolution',C)],[],['backward() through Circuit.U / TN_contract_evolution / measure'])
prop('C16','Density-matrix operations agree with the states behind them',
 "For every density matrix (pure, mixed, product, entangled, complex) the reduced state over any set of traced qubits given in any order, by either implementation and by the keep/trash variant, is the exact partial trace: entries in ascending order of the kept qubits, trace one, and no caller list is changed. Decomposing a density matrix into a matrix product operator and back returns it (trace one), and its rank-2n tensor form keeps every entry at its place.",
 ['inputs'],"all density matrices of any number of qubits, all subsets and orders of traced qubits",
 "Tests trace a few fixed or random states with one or two index lists; complex mixed states and index order matter.",
 [M,T],[('ptrace, partial_trace, partial_trace_old',M),('Rho2MPS, MPS2Rho, MatrixProductDensityOperator',T)],[],['ptrace','partial_trace','partial_trace_old','Rho2MPS','MPS2Rho','MatrixProductDensityOperator'])
prop('C17','Encodings prepare the states they name',
 "Amplitude encoding of any non-zero vector no longer than 2^n gives the normalised state with the inputs as leading amplitudes and zeros behind; Pauli encoding applies to each listed qubit the rotation about the chosen axis by its input, reusing the inputs cyclically; state and density preparation reproduce their input as a vector and as |psi><psi|. Gram encoding of a non-negative data row gives the pure density matrix of the normalised row, and oversized or misnamed inputs are rejected.",
 ['inputs'],"all input vectors (real, complex, shorter than the register), wires, axes",
 "No test covers the encodings beyond their use in demos with fixed data.",
 [E_,S],[('AmplitudeEncoding, PauliEncoding, gram_encoding',E_),('PrepareState, PrepareRho',S)],[],['encoded_state','U_expand','PrepareState','PrepareRho','gram_encoding'])
prop('C18','The legacy circuit class composes its gates correctly',
 "For every program built with the older circuit class its unitary is the time-ordered product of the textbook unitaries of the gates requested (reversed when the other multiplication order is asked for), and its gate and matrix lists record one entry per gate in order. Its measurement returns the Pauli-Z expectation of every qubit of a density matrix, and a request naming an unusable qubit is rejected without being recorded.",
 ['programs','histories'],"all programs of the legacy class, including rejected requests in between",
 "No test of the suite exercises the legacy class.",
 [Q],[('Circuit methods, gate_sequence_product, measure',Q)],[('gate_list, u','recorded gates and matrices',Q)],['U','gate_sequence_product','measure','gate_list'])
prop('C19','Quantum convolution applies the same circuit to every window',
 "For every image batch, kernel, stride and weight setting, the output at each position and channel is the Pauli-Z expectation of that qubit after the documented circuit (ry encoding of the window's pixels row by row, the trainable rx-rz-rx rotations, the CNOT ring) on exactly the window at that position; windows are all those inside the image at multiples of the stride. Batch entries do not influence each other, and gradients reach the weights and match the exact derivative.",
 ['inputs','configurations'],"all image sizes, strides, batch sizes, pixel and weight values",
 "The demo runs one geometry without checking a value.",
 [V],[('QuanConv2D.forward, _input, _qconv',V)],[],['QuanConv2D.forward'])
prop('C20','Matrix utilities decide and compute what they name',
 "The predicates for unitary, Hermitian and normalised inputs hold exactly for inputs that have the property (within rounding) and fail for those violating it in any single row, column or entry, whatever the position; non-square or non-vector inputs are rejected. The Kronecker product of a list of matrices is the ordered product of all of them and the adjoint is the conjugate transpose.",
 ['inputs'],"all matrices and vectors; single-entry violations at any position",
 "Tests try a few positive and negative examples; a loop bound that skips one row pair is not seen.",
 [M],[('IsUnitary, IsHermitian, IsNormalized, multi_kron, dag',M)],[],['IsUnitary','IsHermitian','IsNormalized','multi_kron','dag'])
prop('C21','Malformed requests are refused, valid ones are not',
 "A request that names a qubit outside the register, the same qubit as control and target, a wrong number of parameters or repetitions, an object of the wrong shape, or a path the operation does not support raises an error instead of returning a value, and leaves the circuit and the evolved state usable and unchanged. Every well-formed request is served.",
 ['inputs','histories'],"all kinds of operation x all malformed wire tuples and parameter counts x evaluation paths",
 "Tests only make valid requests.",
 [G,L,C,T,M],[('ValueError checks in constructors, U_expand, TN_operation, TN_contract',G),('constructor checks of layers',L)],[],['constructors','U_expand','TN_operation','TN_contract','cir_expectation','StateVec2MPS'])
prop('C22','Evaluation is repeatable and changes nothing it was given',
 "Evaluating a circuit or an operation (unitary, inverse, contraction, expectation, gradients, conversions, partial traces, measurement) any number of times and in any order returns the same values each time and changes neither the circuit, the operations and their parameters, nor the states, observables, index lists and matrices passed in. The only object an evaluation may change is the matrix product state handed to it for evolution; circuits and operations that share nothing never influence each other.",
 ['histories','schedules'],"all interleavings of evaluations, updates and additions over several circuits, gates and states",
 "Tests evaluate each object once; aliasing and leftover state need a second look at the arguments.",
 [C,G,L,T,M],[('evaluation methods',C),('MPS list handling',T)],[('gate objects, MPS lists','shared mutable objects',C)],['all evaluation entry points'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
