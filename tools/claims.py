TECH = 'contract-based deductive verification of the C++ sources (symbolic VC generation, loop invariants, z3 and matrix normal forms)'
BASE = ' Assumes exact real arithmetic (no rounding), the listed contracts of Eigen, std and crocoddyl, and fixed dimensions; see trusted_base and assumptions in the evidence. A randomised replay of the real code runs beside the proof and is labelled bounded.'
CLAIMS = {
 'C01': (TECH, 'proof', 'Contracts of SolverSQP::checkKKTConditions, computeDirection, tryStep (frame, throw paths included) and the loop invariants of solve that carry the certificate to the return.' + BASE),
 'C02': (TECH, 'proof', 'Contracts of SolverCSQP::checkKKTConditions, tryStep (frame) and the loop invariants of solve. The contract of computeDirection is verified by the CSQP units.' + BASE),
 'C03': (TECH, 'proof', 'Contracts of SolverPROXQP::checkKKTConditions, calc, computeDirection (frame), tryStep (frame) and the loop invariants of solve. The external QP solver (ProxQP) is an assumed contract.' + BASE),
 'C04': (TECH, 'proof', 'Contracts of checkKKTConditions, computeDirection and forwardPass of DDP and FDDP and the loop invariants of their solve.' + BASE),
 'C05': (TECH, 'proof', 'Ghost history of the iterates of one solve, loop invariant of the filter lists, for every filter size and every earlier solve.' + BASE),
 'C06': (TECH, 'proof', 'Contract of tryStep for the three SQP-type solvers, all horizons, dimensions and step lengths.' + BASE),
 'C07': (TECH, 'proof', 'Contract of SolverSQP::computeDirection and everything it calls, as matrix identities in exact arithmetic.' + BASE),
 'C08': (TECH, 'proof', 'Contracts of the CSQP backward and forward passes (serial, factorisation-reusing, multi-threaded text verified sequentially, unconstrained), as matrix identities in exact arithmetic.' + BASE),
 'C09': (TECH, 'proof', 'Contract of update_lagrangian_parameters (heuristic penalty rule on and off), for all nodes and components.' + BASE),
 'C10': (TECH, 'proof', 'Contracts of apply_rho_update, update_rho_vec, reset_rho_vec and of the inner loop of computeDirection (version numbers of penalties and factorisation), with the frames of every pass.' + BASE),
 'C11': (TECH, 'proof', 'Contract of the inner loop of SolverCSQP::computeDirection and of the residuals computed by update_lagrangian_parameters.' + BASE),
 'C12': (TECH, 'proof', 'Contracts of increaseRegularization / decreaseRegularization and the retry loop of every solve.' + BASE),
 'C13': (TECH, 'proof', 'Adoption invariant of solve, contract of tryStep, class invariant that the first state step is zero. For the ProxQP-based solver the invariant is proved of the read-back, given a QP answer satisfying its equality rows at node 0.' + BASE),
 'C14': (TECH, 'proof', 'Budget invariants of the outer loops and of the inner loop of CSQP, time observations as ghost state.' + BASE),
 'C15': (TECH, 'proof', 'Contracts of every setter of every solver class, NaN included.' + BASE),
 'C16': (TECH, 'proof', 'NaN flags carried through tryStep and checkKKTConditions, and the adoption invariant of solve.' + BASE),
 'C17': (TECH, 'proof', 'Event contracts of the outer loop of SQP and CSQP, and the values of cost, gap norm, constraint norm and merit at each callback.' + BASE),
 'C20': ('contract-based deductive verification of the Python logger (symbolic execution of every path over unknown histories and solver states) and of the C++ getters its properties are bound to', 'proof', 'Contract of CallbackLogger.__init__ and __call__ over an arbitrary earlier log; property table extracted from the clang AST of the bindings; contracts of the bound getters; the forwarding wrapper is compared structurally. crocoddyl\'s own Python properties (xs, us, fs, iter, cost, preg, dreg, stepLength) and Boost.Python are assumed. A replay through the compiled bindings runs beside the proof and is labelled bounded.'),
 'C19': (TECH, 'proof', 'Contracts of SolverPROXQP::calc (every QP block, exactly once, zero elsewhere) and computeDirection (data handed over, read-back of direction and multipliers), for all horizons and per-node dimensions.' + BASE),
 'C21': (TECH, 'proof', 'Contracts of backwardPass (Riccati identities), expectedImprovement, updateExpectedImprovement, computeDirection and tryStep of DDP and FDDP, and the acceptance invariant of their solve over the true values of trials and iterates.' + BASE),
 'C18': (TECH, 'proof', 'Range, size, wrap-around and division obligations generated from every function under contract of all five solvers (constructors, passes, solve loops, setters), for all horizons of at least one node and all per-node dimensions; constructors establish the buffer sizes, every assignment keeps them.' + BASE),
 'C22': (TECH, 'proof', 'Prologue contract of the solve of all five solvers, checked at the first call of computeDirection with every callee replaced by its contract, contract of reset_params (all four configurations) and the order of reset, warm start and passes in the inner loop of CSQP.' + BASE),
}
NA = {}
