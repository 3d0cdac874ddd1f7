"""Writes known-findings.json (run by hand, never by a check)."""
import json, os
FIXED = [
 ("C01","6a97d2c","Circuit().to_unitary() of an empty circuit raised instead of giving the identity"),
 ("C08","ed9bf5a","Circuit.controlled dropped idle qubits of the original register"),
 ("C06","dcc9321","expression parameters were substituted sequentially, so {a: b, b: a} gave a wrong gate"),
 ("C06","d919d2b","custom gate matrices were substituted sequentially, mixing parameters with definition symbols"),
 ("C06","8db9cce","ResetOperation.bind / replace_params / free_symbols were missing, circuits with resets could not be bound"),
 ("C05","98b460b","custom definitions of gates nested in wrappers were not collected, such circuits could not be loaded"),
 ("C05","64f2e39","parameters of custom gates were deserialised without the parameters' own symbols"),
 ("C05","db40fe5","symbol names that sympy interprets (S, E, I, lambda_, beta, ...) were turned into something else on loading"),
 ("C05","bd38b8f","sympy constants (pi, E, I) were confused with symbols of the same name"),
 ("C05","b7f2bd9","circuits with numpy-integer qubit indices could not be serialised"),
 ("C05","7b98eb4","custom gates named like other members of the gate module were replaced by them"),
 ("C07","14d8576","exponential of a diagonal gate produced a wrongly shaped / wrong matrix"),
 ("C18","d87b932","decomposition dropped idle qubits"),
 ("C18","f728f20","decomposition failed on non-gate operations instead of keeping them"),
 ("C03","a843692","PauliSum equality depended on set ordering/hash buckets rather than on the values"),
 ("C11","81b209f","printed constant terms could not be parsed back"),
 ("C09","591d469","get_sparse_operator of an empty sum raised / ignored the width"),
 ("C09","665aea3","Pauli expansion of a 1x1 matrix failed"),
 ("C10","455369f","expectation of an operator acting on no qubits was not its constant"),
 ("C10","ede6d33","parities of an empty set of measurements failed"),
 ("C11","bac099d","expectation values with empty frame lists did not survive a round trip"),
 ("C13","2da6bed","expand_sample_sizes returned non-integers / wrong counts"),
 ("C13","66faab3","scale_and_discretize did not sum to the total / left its tolerance"),
 ("C11","abbff3c","several load functions refused pathlib paths / open files"),
 ("C11","42bc6d5","measurement-count estimates were not returned equal"),
 ("C04","69d7c83","zero-qubit outcome strings were not the empty string"),
 ("C12","f871b63","a rejected assignment left the wavefunction changed"),
 ("C14","38b51b7","run_batch_and_measure([], 0) accepted a non-positive sample count"),
 ("C14","10d16a6","the tracker's counters grew on rejected batches"),
 ("C15","a6effe2","a constant operator with several terms kept only one of them"),
 ("C16","a35f33b","negative imaginary parts of coefficients were silently truncated"),
 ("C16","d170593","multi-step derivatives used the wrong step size"),
 ("C16","3c697f4","terms with zero coefficient broke the derivative"),
 ("C17","f11ba35","subdistribution emptied its source and confused multi-digit outcomes"),
 ("C20","f11ba35","subdistribution emptied its source"),
 ("C17","932c978","distributions over one subsystem with multi-digit outcomes did not load back"),
 ("C17","b5876e8","MMD overflowed or mis-coded many qubits and non-binary outcomes"),
 ("C17","3281e89","distributions whose probabilities are numpy integers could not be saved"),
 ("C17","eba1d78","normalising very large weights overflowed"),
 ("C19","77ed26a","natural_key failed on non-decimal digit characters"),
 ("C19","b033afc","subtracted terms were re-evaluated, turning exp(1) into the unsupported E"),
 ("C19","1f088d8","user-defined functions named like supported ones were translated instead of refused"),
 ("C19","353f94d","undefined functions named like supported ones were translated instead of refused"),
 ("C05","b47853a","some float parameters came back changed in the last bit"),
 ("C05","d8ffcdb","a circuit with two custom gates of one name, where the smaller matrix reads like the first row of the larger (a projector and the two-qubit identity), was serialised with one definition for both"),
 ("C10","52c8045","pair tallies wrapped around for unsigned integer bits"),
 ("C10","f5ee7d7","boolean bits were counted as strings like TrueFalse, which the cache then gave for the equal integer bits too"),
 ("C11","16267f6","printed sums with a coefficient of 1e16 or more (1e+16*X0) could not be parsed back"),
 ("C12","4ad56ab","amplitudes stayed symbolic after every symbol was replaced by assignment"),
]
KNOWN = [
 ("C07","power-dagger-branch","(g.power(p)).dagger for a non-integer p uses g.dagger.power(p), which differs from the adjoint when g has the eigenvalue -1 (e.g. X.power(0.5).dagger); an existing test pins this structure"),
 ("C07","sympy-matrix-function-limit","modifier chains whose inner matrix is not a small simple one can make sympy's exp or fractional power raise (e.g. X.exp.exp.exp, {exp^RX}^-2) or return a wrong root of a root (RX(pi).power(1/3).power(1/3)): the library hands the matrix to sympy and has no numeric fallback"),
 ("C08","power-dagger-branch","Circuit.inverse() of a circuit holding a fractional power of a gate with eigenvalue -1 is not the adjoint (same cause as in C07)"),
 ("C18","controlled-u3-phase","U3GateToRotation on a controlled U3 loses the relative phase exp(i(phi+lambda)/2) on the controls; an existing test forces the replacement sequence"),
]
out={"findings":[dict(property=p,key=k,status="known",what_fails=w) for p,k,w in KNOWN]
 +[dict(property=p,key=f"fixed-{c}",status="fixed",commit=c,what_fails=w,entry=f"fixed: property={p} {c} {w}") for p,c,w in FIXED]}
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(out,open(os.path.join(here,"known-findings.json"),"w"),indent=1)
