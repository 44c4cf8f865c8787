"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
G="deepquantum/gates/"; Q=G+"qoperator.py"; L="deepquantum/layers/qlayers.py"; T=G+"qtensornetwork.py"
M=G+"qmath.py"; C=G+"qcircuit.py"; E="deepquantum/embeddings/qembedding.py"; S="deepquantum/embeddings/qstate.py"
V="deepquantum/nn/modules/quanv.py"; LG=G+"qgate.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Every gate expands to its textbook operator on its own wires",
 "For every gate in the library, every register size N, every choice of distinct in-range wires in any order and every real parameter value, the dense 2^N x 2^N operator the gate produces is its textbook matrix acting on exactly those wires (wire 0 most significant; control and target roles as given) and the identity on every other qubit. The small matrix a gate exposes is that same textbook matrix, so it is unitary for every parameter value.",
 ["inputs"],"all N >= number of wires, all distinct wire tuples (both orders), all real parameters, parameters given as numbers, tensors or lists",
 "Tests expand a few gates at one N, one wire pair and random angles and only print or look for crashes; the claim is over every N, every wire placement and every angle.",
 [Q,M],[("gate constructors and dense expansion",Q),("one-qubit, controlled and multi-controlled Kronecker expansion",Q+":Operator/Operation"),("multi_kron",M)],
 observe=["gate.U_expand()","gate.matrix"])

p("C02","Applying a gate to a rank-N state tensor equals its dense operator",
 "For every gate that declares tensor-network support, contracting it into a state held as a rank-N tensor gives the rank-N tensor of the gate's dense operator applied to that state: same axis order, same values, whatever the wires' order or distance. With batch mode on, the same holds independently for every element of the leading batch axis.",
 ["inputs"],"all N, all distinct wire tuples in any order, all parameters, all complex states (normalised or not), all batch sizes >= 1",
 "The axis bookkeeping differs for every relative order and distance of the wires and for N at its minimum; tests run a handful of placements and mostly check that nothing crashes.",
 [Q],[("rank-N contraction by axis permutation, reshape, matrix product, and inverse permutation",Q+":TN_contract of each gate")],observe=["gate.TN_contract(tensor, batch_mod)"])

p("C03","Applying a gate to a matrix product state equals its dense operator",
 "For every gate that declares tensor-network support, applying it to a valid matrix product state yields a valid matrix product state of the same length whose full state vector is the gate's dense operator applied to the original state vector, for every order and distance of its wires. Only Schmidt components at numerical-zero weight are ever discarded.",
 ["inputs"],"all N, all distinct wires in any order, all parameters, all states and all valid bond dimensions",
 "Distant wires are reached by chains of swaps whose length depends on the wires, followed by truncating decompositions; tests sample a few placements on N=4..6 and rarely compare values.",
 [Q,T],[("swap chains and local two/three-site update",Q+":TN_operation of each gate"),("split of a merged site by SVD, rank cut at 1e-8",T+":TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate")],observe=["gate.TN_operation(mps)","MPS2StateVec"])

p("C04","The dagger of a gate or layer is its adjoint",
 "For every gate and layer that offers an adjoint operation, the object it returns acts on the same register and its operator is the conjugate transpose of the original's, for every parameter value; it is itself a usable gate or layer with the same tensor-network support. Taking the adjoint leaves the original object and its parameters unchanged.",
 ["inputs","histories"],"all gates/layers with an adjoint, all N, wires, real parameter vectors (numbers, lists, tensors, tensors tracked by autograd), also after parameter updates",
 "The adjoint re-orders and negates parameters per gate type; the existing dagger test samples random values and currently cannot even run.",
 [Q,L],[("operation_dagger of each gate and layer",Q+" and "+L)],observe=["x.operation_dagger()"])

p("C05","Updating parameters equals building the gate afresh; nothing goes stale",
 "After any sequence of parameter updates and uses, a gate or layer behaves in every representation (dense operator, small matrix, tensor contraction, matrix-product application, adjoint, description) exactly like one newly built with the last parameters and the same wires. Using a gate or layer never changes its own parameters, wires or operator, nor the parameter tensor the caller supplied.",
 ["histories","inputs"],"all finite call sequences over the public operations, all parameter values (as tensors), all N and wires",
 "Any cached matrix or sub-layer can go stale only along particular call histories; tests update once per training step and never compare with a fresh object.",
 [Q,L],[("params_update and cached matrices",Q),("params_update and cached sub-layers",L)],
 state=[dict(name="matrix / u_matrix / part lists",meaning="values derived from the parameters",where=Q+", "+L)],observe=["params_update","U_expand","TN_contract","TN_operation","operation_dagger","info"])

p("C06","Every layer expands to the documented product of its gates",
 "For every N, wire list and parameter vector, a layer's dense operator is the product of its constituent gates in documented order: rotation layers apply their named rotations in reading order (first parameter acts first) on each listed wire, the Hadamard layer one H per listed wire, the CNOT rings one CNOT from each listed wire to the next (or next-but-one) listed wire in list order (a two-wire ring is the single CNOT from the first to the second), and the entangling layer repeats rotation-then-ring the requested number of times. Qubits not listed are untouched.",
 ["inputs"],"all N, all lists of distinct in-range wires in any order (rings: length >= 2), all parameter vectors, all repeat counts",
 "Special-cased fast paths (all wires, two wires) and wire-list order interact with N; tests cover a few N with the full register.",
 [L],[("per-wire gate list",L+":_cal_single_gates"),("ring fast path by growing Kronecker products",L+":_gate_fusion_U_expand"),("repeat composition",L+":BasicEntangleLayer")],observe=["layer.U_expand()"])

p("C07","Every layer's tensor-network paths equal its dense operator",
 "For every layer that declares tensor-network support, applying it to a rank-N state tensor (with or without a batch axis) or to a matrix product state gives the same state as its dense operator, for every N, parameter vector and wire list it accepts. Where a wire list is not supported by a tensor-network path it is refused with an error, never applied wrongly.",
 ["inputs"],"all N, wire lists, parameters, states, batch sizes",
 "Layer paths loop over wires and, for rings, over swap chains of register length; tests run full registers of a few sizes.",
 [L,T],[("per-wire application",L+":SingleGateLayer"),("ring through swaps",L+":ring_of_cnot*.TN_operation"),("ring by contraction",L+":ring_of_cnot*.TN_contract")],observe=["layer.TN_contract","layer.TN_operation"])

p("C08","All circuit evaluation paths agree with the ordered gate product",
 "For every circuit, the overall unitary is the product of its gates' operators in insertion order (the reverse product when the direction flag is off; identity when empty), and evolving a matrix product state, evolving a rank-N tensor (batched or not), and the circuit expectation value (with or without tensor networks, falling back to the dense path when some part lacks support) all give the result of that same unitary. Evolution refuses a circuit containing a part without tensor-network support, and evaluating never alters the circuit.",
 ["programs","inputs"],"all circuits (any sequence of gates and layers), all states, observables, parameters and flags",
 "The claim ranges over all programs; tests build a few fixed circuits.",
 [C],[("dense product",C+":Circuit.U"),("MPS evolution",C+":Circuit.TN_evolution"),("rank-N evolution",C+":Circuit.TN_contract_evolution"),("expectation",C+":Circuit.cir_expectation")],observe=["Circuit.U","TN_evolution","TN_contract_evolution","cir_expectation"])

p("C09","The circuit builder records exactly what was added",
 "Each builder call appends exactly one operation of the named kind, with the circuit's register size and exactly the given wires and parameters, after the existing ones; the recorded parameter count and per-operation parameter table always equal those of the operations present. Clearing a circuit returns it to the state of a new one, so a cleared and rebuilt circuit behaves like a fresh one; the default state is the all-zero basis state.",
 ["histories","programs"],"all sequences of add/builder/clear calls",
 "Bookkeeping across histories (clear then rebuild, mixed gates and layers) is not exercised by tests.",
 [C],[("add and bookkeeping",C+":Circuit.add"),("clear",C+":Circuit.clear"),("builder methods",C+":Circuit.*")],
 state=[dict(name="gate, cir_params, cir_num_params",meaning="operation list and parameter bookkeeping",where=C+":Circuit")],observe=["Circuit.gate","cir_params","cir_num_params","U()"])

p("C10","State vector to matrix product state and back is the identity",
 "Converting any state vector of N qubits (including zero amplitudes, product, maximally entangled and unnormalised states) to a matrix product state and back returns the same amplitudes in the same order, both as a row vector and as a rank-N tensor; the intermediate sites form a valid chain with boundary bonds of dimension one. Inputs of the wrong shape are refused, and inputs are not modified.",
 ["inputs"],"all N >= 1, all complex vectors of length 2^N with at least one non-negligible amplitude",
 "Requires every rank profile of every bipartition; random test states are all of full rank and never degenerate.",
 [T],[("successive SVD",T+":StateVec2MPS"),("chain contraction",T+":MPS2StateVec"),("reshape",T+":MatrixProductState")],observe=["StateVec2MPS","MPS2StateVec","MatrixProductState"])

p("C11","Density matrix to matrix product form and back is the identity",
 "Converting any N-qubit density matrix (pure or mixed, any rank) to its matrix product form and back returns the same matrix up to floating-point error, and the rank-2N tensor form has row qubits first and column qubits last in order. Wrong shapes are refused.",
 ["inputs"],"all N >= 1, all density matrices",
 "Requires all ranks and entanglement structures; tests cover random dense matrices of one or two sizes.",
 [T],[("interleaving and SVD",T+":Rho2MPS"),("contraction and renormalisation",T+":MPS2Rho"),("reshape",T+":MatrixProductDensityOperator")],observe=["Rho2MPS","MPS2Rho","MatrixProductDensityOperator"])

p("C12","Partial traces reduce exactly the requested qubits",
 "For every N, every N-qubit density matrix and every set of qubits in any order, the partial trace is the reduced density matrix of the remaining qubits in their original order; the alternative implementation and the keep-leading-qubits variant agree with it, and tracing nothing returns the matrix unchanged. The input density matrix is not modified. The index-list forms refuse a wrong dimension, a non-unit trace or an out-of-range index.",
 ["inputs"],"all N, all unit-trace matrices, all subsets of qubits in any order (including empty and all)",
 "Index arithmetic depends on every (N, qubit) pair and recursion renumbers qubits; tests compare one or two small cases.",
 [M],[("row/column selection and recursion",M+":partial_trace"),("projector sum",M+":partial_trace_old"),("trailing trace",M+":ptrace")],observe=["partial_trace","partial_trace_old","ptrace"])

p("C13","Expectation and measurement report the requested Z expectations",
 "The expectation routine returns the real number <psi|M|psi> for a state vector (row or column, normalised or not) and tr(rho M) for a unit-trace density matrix, for every Hermitian M. Measuring returns, in order, the Pauli-Z expectation of exactly the requested qubits (all of them when none are specified; an integer index, including 0, selects that qubit alone; a list selects those qubits in list order), for both state vectors and density matrices.",
 ["inputs"],"all N, all states and density matrices, all qubit selections including 0 and single-element lists",
 "Selections such as qubit 0 and non-full lists are never compared with expected values in tests.",
 [M],[("expectation",M+":expval"),("Z observables",M+":_Zmeasure"),("measure",M+":measure")],observe=["expval","measure"])

p("C14","The parameter-shift gradient is the exact derivative",
 "For every circuit of supported gates and layers, every initial state, observable and current parameter value, the parameter-shift routine returns, in insertion order with one entry per parameter, the exact partial derivative of the circuit expectation with respect to each parameter at the parameters the gates currently hold. Afterwards the circuit's parameters are what they were before (up to rounding).",
 ["programs","inputs"],"all circuits, parameters (scalars and vectors), states, observables, and call histories including parameter updates beforehand",
 "Tests print gradients next to each other for one circuit; exactness is a claim over every gate type, parameter value and circuit.",
 [C,Q,L],[("two-point shift",C+":parameter_shift.cal_params_grad")],observe=["parameter_shift.cal_params_grad"])

p("C15","The adjoint matrix-product gradient equals the exact derivative",
 "For non-empty circuits whose parts all support tensor networks and for one-qubit Pauli observables, the forward/backward matrix-product gradient equals the exact partial derivatives of the expectation, one entry per parameter in insertion order, wherever parametrised operations sit (first, last, adjacent). It also returns the final state vector and leaves the circuit and its parameters unchanged.",
 ["programs","inputs"],"all non-empty circuits of tensor-network gates and layers, all parameters, initial states and Pauli observables",
 "Which intermediate states are saved depends on the positions of parametrised operations; one fixed circuit is exercised.",
 [C],[("forward and backward sweep with saved states",C+":parameter_shift.save_mid_MPS"),("overlap with pi-shifted gate",C+":parameter_shift.cal_params_grad2")],observe=["save_mid_MPS","cal_params_grad2"])

p("C16","Every result is differentiable in the gate parameters",
 "When parameters are tensors that track gradients, every evaluation path that accepts them (dense operator, tensor contraction, matrix-product application for gates, layers, rotation encodings and circuits, adjoints, parameter updates, expectation and measurement) yields results connected to those parameters, and back-propagation gives the true derivative. No path silently cuts the gradient or fails because the parameters track it.",
 ["inputs","histories"],"all parametrised gates, layers and encodings, all evaluation paths, before and after parameter updates",
 "Training tests only exercise the gates they use, and a detached gradient shows up as a zero or missing gradient rather than a crash.",
 [Q,L,M,C,E],[("matrices built from differentiable operations",Q+", "+L)],observe=["requires_grad/backward of U_expand, TN_contract, TN_operation, expval, measure, cir_expectation"])

p("C17","Matrix predicates and helpers mean what they say",
 "The unitarity, Hermiticity and normalisation predicates accept exactly the square matrices (or vectors) satisfying the definition within the tolerance 1e-6 on every entry tested, for every size including 1, and refuse malformed shapes. The adjoint helper returns the conjugate transpose of any matrix, and the Kronecker helper the left-to-right Kronecker product of any non-empty list, leaving inputs unmodified.",
 ["inputs"],"all sizes, all complex entries, all list lengths",
 "Tests check fixed 2x2 examples; a defect confined to the last row, the diagonal, imaginary parts or larger sizes passes.",
 [M],[("predicates",M+":IsUnitary, IsHermitian, IsNormalized"),("helpers",M+":dag, multi_kron")],observe=["IsUnitary","IsHermitian","IsNormalized","dag","multi_kron"])

p("C18","Encodings produce the documented states and operators",
 "Amplitude encoding yields the input vector divided by its 2-norm and padded with zeros to 2^N; Pauli encoding yields on each listed wire the chosen rotation by the corresponding (cyclically repeated) input and identity elsewhere, with its tensor-network forms agreeing; Gram encoding yields a positive semidefinite unit-trace Hermitian matrix built from the input; state preparation turns a list of amplitudes into that vector and its density matrix |psi><psi|. Inputs that are too long or an unknown axis are refused.",
 ["inputs"],"all N, all input lengths up to the limit, all wire lists, all real/complex values with non-zero norm",
 "Tests encode one fixed example; shorter inputs, repeated inputs and complex amplitudes are not sampled.",
 [E,S],[("encodings",E),("state preparation",S)],observe=["AmplitudeEncoding.encoded_state","PauliEncoding.U_expand/TN_*","gram_encoding","PrepareState","PrepareRho"])

p("C19","Quanvolution evaluates the circuit on every full window exactly once",
 "The quanvolution layer's output entry at (image, channel c, row i, column j) is the Z expectation of qubit c after encoding the window (of the image's first channel) whose top-left corner is (i*stride, j*stride), pixel by pixel, and applying the trained circuit; every window that fits inside the image is evaluated, once, into its own cell, for every image size, stride, batch and kernel size of at least 2. A qubit count that does not match the kernel is refused.",
 ["inputs","configurations"],"all batch sizes, image sizes >= kernel, strides >= 1, kernel sizes >= 2, weights and pixel values",
 "The demo test uses one image size with stride equal to the kernel, where window bookkeeping errors cannot show.",
 [V],[("window loop",V+":QuanConv2D.forward"),("encoding and trained circuit",V+":_input, _qconv")],observe=["QuanConv2D.forward"])

p("C20","Invalid gate placements and parameter counts are refused",
 "Expanding a gate on an out-of-range or negative wire, on repeated wires where distinct ones are needed, or with no register or wires given raises an error instead of returning an operator; likewise building a layer with too many wires, too few wires for a ring, a non-matching parameter count or a non-positive repeat. Valid placements and counts are never refused.",
 ["inputs"],"all N, all integer wire tuples (valid and invalid), all parameter counts",
 "Tests never pass invalid placements, and every gate carries its own copy of the checks.",
 [Q,L],[("range and distinctness checks",Q),("constructor checks",L)],observe=["U_expand","layer constructors"])

p("C21","The string-keyed legacy circuit builder multiplies the gates it lists",
 "For every sequence of calls on the classic circuit class, each call records one entry (name, qubits, angle) and one matrix, the matrix is the textbook operator of that gate on those qubits for every angle (number or tensor) and every valid qubit pair in any order, and the circuit unitary is their product in call order. Its Z-expectation helpers return tr(rho Z_q) for each qubit, and calls on unavailable or coinciding qubits are refused.",
 ["programs","inputs"],"all call sequences, N, qubits (including 0 as second qubit), angles",
 "Only one demo uses this class with a fixed sequence of gates.",
 [LG],[("gate methods and expansion",LG+":Circuit"),("ordered product",LG+":gate_sequence_product")],
 state=[dict(name="gate_list, u",meaning="recorded names and matrices",where=LG+":Circuit")],observe=["gate_list","u","U()","measure"])

p("C22","Matrix-product inner products and local expectations match dense ones",
 "For any two matrix product states of equal length, the matrix-product inner product equals the inner product of their state vectors (conjugating the bra), including product states and a single qubit; the local expectation of one-qubit observables on chosen wires equals the dense expectation value of their product. Neither routine modifies the states it is given.",
 ["inputs"],"all N >= 1, all bond dimensions >= 1, all wires and 2x2 observables",
 "Tests use one random full-rank pair; product states (bond dimension 1) and repeated use of the same state are not covered.",
 [T],[("site-by-site contraction",T+":MPS_inner_product"),("apply and overlap",T+":MPS_expec")],observe=["MPS_inner_product","MPS_expec"])
with open(OUT,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=="__main__":
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x,sch); 
        assert len(x["title"])<=80,x["id"]
    print(len(P))
