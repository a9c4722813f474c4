# what is not covered, and other remarks, per property (used by design.py)
NOTES = {
"C01":"Outside: larger shapes; allocation failure.",
"C02":"A call that the documentation leaves undefined is only required not to corrupt memory. Outside: sequences longer than the bound.",
"C04":"The refusal condition is the documented one (room in the row window or in the overflow area), not a particular exception text.",
"C05":"Exact arithmetic: the summation order is free.  Outside: rounding, SIMD entries.",
"C07":"NaN propagation is decided in exact mode with one marked entry; infinities are outside.",
"C12":"Dense blocks of dynamic size are assumed non-empty (documented precondition).",
"C13":"Outside: pivot growth and rounding.",
"C15":"Outside: singular diagonal blocks (division by zero by definition).",
"C17":"The equation checked is (L U)_ij = a_ij at every stored position, with the pattern of level n obtained independently from the graph (shortest fill path of length n+1 through smaller indices).",
"C20":"The operator, preconditioner and scalar product answer arbitrarily; only the reporting logic is decided here.  The numerics are C21.",
"C21":"Dimension 1 and 2, exact arithmetic, no breakdown apart from the ones reachable within the bounds.  Outside: rounding, larger Krylov spaces.",
"C22":"Decided in exact mode with invalid numbers as marked values; overflow to infinity by rounding is outside.",
"C24":"The check does not prescribe which aggregates are built; it decides that they form a partition into connected sets, that isolated and skipped vertices are treated as documented, and that the reported counts are right.",
"C28":"Smoothers are used as black boxes (C16, C17, C19 decide them); the reference cycle is written from the definition of the V/W/additive cycle.",
"C29":"ILUNSubdomainSolver is exact only where ILU(n) has no fill-in outside the pattern, hence at most three blocks.  Outside: SuperLU/UMFPack as subdomain solvers (C30 decides the sub-matrix they are given).",
"C30":"Only the conversion; the libraries are C31.",
"C31":"UMFPACK, SuperLU, LDL, CHOLMOD and SPQR are replaced by stand-ins that record their arguments, check the call protocol and answer with symbolic numbers.  The numerics of those libraries are not decided.",
"C32":"The MPI library is replaced by `mpiworld.h`, which runs every process as a coroutine in one address space and delivers messages; two orders of running and completing are explored, not all interleavings.  Masks and interfaces are cached by the class, changing the index set afterwards is outside.",
"C33":"Conversion between characters and numbers is replaced by tokens.  Outside: float entries, duplicate entries, reading into a matrix in implicit mode.",
"C34":"Parsing of numbers is dune-common's.  Outside: defaults of verbosity, direct solvers created by the factory (their libraries are not in the sandbox's build).",
"C35":"Outside: matrices without stored diagonal entries, TLIME with a start outside its interval, printed diagnostics; ARPACK itself is a stand-in.",
"C36":"ParMETIS/METIS are stand-ins that answer with every partition in range; MPI as in C32.  Known finding `twolost` (see known_findings.json): nonoverlapping decompositions redistributed to more than one process lose couplings that the old owner of the row did not hold.  Repairing it needs a second exchange of rows between all holders (a redesign of the protocol), so it is recorded and not repaired; nonoverlapping redistribution to one process is required to be complete.",
"C38":"Conversion of numbers to characters is replaced by tokens.  Outside: complex vectors for Matlab, geometry of nested matrices that are entirely empty.",
"C39":"Which aggregates are built is C24; here they are only required to be consistent between processes.  Off-diagonal entries of coarse copy rows are not specified (the code documents that they are not Dirichlet rows).  The parallel cycle is encoded with a block Jacobi smoother and a coarse solver that multiplies by arbitrary numbers; FastAMG and the K-cycle on several processes and other smoothers are outside (their sequential forms are C28, the parallel building blocks C32 and C36).  Periodic decompositions (a process that neighbours itself) and nonoverlapping hierarchies are outside.",
}
