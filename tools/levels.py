_T="runtime monitoring: %s"
_N="Every execution observed in the run agreed with an independent oracle; nothing is claimed for inputs not generated. %s"
LEVELS={
"C01":(_T%"online oracle (independent tensordot embedding) over random circuits, simulators and concatenations",_N%"Trusts numpy; gate.matrix itself is judged by C02/C07; index tuples up to width 5 are exhaustive."),
"C02":(_T%"online oracle of unitarity, dimension, hermiticity flag, group and defining identities over gates x parameter values",_N%"Numeric (1e-9) at sampled reals plus random symbolic probes."),
"C03":(_T%"online comparison of every operator result with an exact Pauli algebra and dense Kronecker matrices",_N%"Pairs of strings up to 3 qubits exhaustive; tolerance band around 1e-8 not judged."),
"C04":(_T%"cross-view consistency monitor (state, distribution, samples, counts, expectations) against one reference index convention",_N%"Sampling is checked for support/length always and statistically with a 1e-9 false-alarm bound."),
"C05":(_T%"round-trip monitor through real JSON text/files with structural and matrix oracles",_N%"Parameters restricted to the statement's exactness rules."),
"C06":(_T%"differential monitor: bind-then-evaluate versus own tree evaluator of the unbound matrices",_N%"Equalities of expressions decided at sampled values."),
"C07":(_T%"online matrix oracle over modifier chains",_N%"sympy's own matrix functions limit which chains finish; those are reported as a known finding."),
"C08":(_T%"online matrix/structure oracles of circuit constructions",_N%"Dense matrices up to 6 qubits."),
"C09":(_T%"dense Kronecker oracle for conversions, expansions and expectations",_N%"Registers up to 7 qubits."),
"C10":(_T%"brute-force recomputation of the sample statistics",_N%"1e-9 relative."),
"C11":(_T%"round-trip monitor through real files/JSON/text with exact comparison",_N%"Coefficients below 1e15."),
"C12":(_T%"history monitor: random assignment/bind sequences against a model state with atomicity check after each step",_N%"The band of norm errors between 1e-9 and 5e-5 is not judged."),
"C13":(_T%"conservation monitor over random and boundary request lists",_N%"Exact integer accounting."),
"C14":(_T%"history monitor: mixed valid/invalid call sequences against counter and record models",_N%"Runners built on the base classes within the process."),
"C15":(_T%"order/weight monitor on permuted task lists with instrumented runners",_N%"Exact for basis-state circuits."),
"C16":(_T%"closed-form exponential oracle and analytic-derivative oracle",_N%"1e-8 numeric."),
"C17":(_T%"law monitor (normalisation, marginals, distances, persistence) with brute-force recomputation",_N%"Floating-point tolerance 1e-9."),
"C18":(_T%"action-equivalence monitor up to one global phase, plus rule-chaining trace checker",_N%"Dense matrices up to 6 qubits."),
"C19":(_T%"differential evaluation of translated trees at sampled points, refusal monitor",_N%"Equality decided at several complex/real sample points."),
"C20":(_T%"deep-snapshot monitor around every public call in random histories on shared objects",_N%"Snapshots cover public state reachable from each value object."),
}
