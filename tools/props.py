#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the one table below (and the checks in checks.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), note=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over.split(), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


MAT = "common/include/Matrices.hpp common/include/Hessenberg.hpp common/include/fortranRectangularArray.hpp common/include/fortranRectangularComplexArray.hpp common/include/fortranArray.hpp common/include/fortranComplexArray.hpp"
RAD = "Radau5-NG/include/Radau5cc.hpp"
ROD = "Rodas-NG/include/Rodascc.hpp"
R4 = "Rock4-NG/include/Rock4.hpp Rock4-NG/include/ToolOMP.hpp Rock4-NG/include/Rock4Coeffs.hpp"
R4L = "Rock4-L/include/Rock4L.hpp Rock4-L/include/rock4.hpp Rock4-L/include/Rock4Coeffs.hpp"
SD = "SDIRKL/include/Sdirkl.hpp SDIRKL/include/EulerImp.hpp SDIRKL/include/CrN.hpp SDIRKL/include/RKRS.hpp SDIRKL/include/RKMethod1.hpp SDIRKL/include/RKMethod2.hpp"
SY = "SymplecticRK/include/SymplecticRK.hpp SymplecticRK/include/GaussianMethod.hpp SymplecticRK/include/Extrap.hpp SymplecticRK/sage/generated_coeffs.hpp SymplecticRK/sage/generated_coeffs_co.hpp"

p("C01", "Real shifted systems are solved exactly for every Jacobian layout",
  """For every regular matrix J and shift g, factoring and solving the real system (g I - J) x = b returns its solution up to
  rounding, in the full, banded (any lower and upper bandwidth) and Hessenberg-reduced layouts, for every right-hand side. A
  factorization can be replaced by one with another shift, matrix or order of real and complex factorizations, and each solve
  answers for the latest factorization of its kind; factoring never alters the Jacobian that was given.""",
  "inputs histories configurations",
  "all layouts and bandwidths for sizes up to six, all matrices over a small alphabet for the small sizes, fillings that force pivoting for the others, all short sequences of factor/solve calls",
  "The tests integrate a few problems with one layout each and compare a handful of final values; a wrong pivot order, band offset or stale factor shows only for particular matrices and call orders.",
  MAT, [("factor/solve of the real and complex shifted matrix", "common/include/Matrices.hpp: decomr, solvereal"), ("Hessenberg reduction and back transformation", "common/include/Hessenberg.hpp")])
p("C02", "Complex shifted systems are solved exactly for every Jacobian layout",
  """For every regular J and complex shift a+ib, factoring and solving ((a+ib) I - J) z = u+iv returns real and imaginary part of
  its solution up to rounding in the full, banded and Hessenberg-reduced layouts, whichever rows pivoting exchanges and whichever
  entries of the pivot rows are purely real, purely imaginary or zero.""",
  "inputs histories configurations",
  "all layouts and bandwidths for sizes up to six, all matrices over a small alphabet for the small sizes, pivot-forcing fillings for the others, all short sequences of factor/solve calls",
  "The tests never look at a complex solve; a wrong one only slows or spoils Newton convergence, and special pivots never occur in the five sample problems.",
  MAT, [("complex factor/solve", "common/include/Matrices.hpp: decomc, solvecomplex"), ("complex Hessenberg elimination", "common/include/Hessenberg.hpp: dechc, solhc")])
p("C03", "A singular shifted matrix is reported and never silently used",
  """When a shifted matrix that has to be factored is exactly singular, the factorization reports it by an exception instead of going
  on with unusable factors, for real and complex shifts and in every layout; the same object then factors and solves a regular
  system correctly.""",
  "inputs histories configurations",
  "every layout and size up to six, singular matrices of every rank defect in the alphabet, at every position of a sequence of factor/solve calls",
  "No test ever produces a singular Newton matrix.",
  MAT, [("info checked after each factorization", "common/include/Matrices.hpp: decomr, decomc"), ("singularity test of the Hessenberg eliminations", "common/include/Hessenberg.hpp: dech, dechc")])
p("C04", "Vector and matrix containers address exactly the elements they are asked for",
  """Every vector and matrix type maps its one-based indices to distinct storage inside its own allocation, full and banded alike;
  each vector operation (fill, copy, sum, linear combinations, swap) computes componentwise what it says for every length and
  aliasing the library uses, in every build mode, without touching other memory. Copies, views and buffer swaps leave each array
  released exactly once.""",
  "inputs histories configurations",
  "all sizes and bandwidths in the bound, all operations with their operand choices, all short sequences of copy, view, swap and destroy operations, in plain, debug and aligned builds",
  "Tests use the containers only through the solvers, at a few sizes, in one build mode and without memory checking.",
  "common/include/fortranVector.hpp common/include/fortranArray.hpp common/include/fortranComplexArray.hpp common/include/fortranRectangularArray.hpp common/include/fortranRectangularComplexArray.hpp common/include/AllocateDestroyVector.hpp",
  [("index maps", "fortranArray.hpp, fortranRectangularArray.hpp: operator()"), ("vector kernels", "fortranVector.hpp"), ("aligned allocation", "AllocateDestroyVector.hpp")])
p("C05", "The event log returns every event once, in order, filtered as asked",
  """After any sequence of recording, clearing and querying, the log returns exactly the events recorded since the last clear, in
  order, each with its own time, step number and new step size where the kind has one; filtering by kind returns exactly the events
  of that kind, numbered from one.""",
  "histories", "all sequences of record, clear and query operations up to the depth bound, over all event kinds",
  "No test looks at the log.", "common/include/logger.hpp", [("event list and filter", "common/include/logger.hpp")])
p("C06", "A Radau5 step is the three-stage Radau IIA step, of order five",
  """Every step that the implicit Radau solver commits is, up to its Newton tolerance, the three-stage Radau IIA step of the size
  used: it satisfies every order condition through order five, reproduces the method's stability function for linear systems however
  stiff, and integrates polynomial right-hand sides of degree up to four exactly. This holds for every Jacobian layout, with
  analytic or difference-quotient Jacobian, forwards and backwards in time, and at every start time.""",
  "inputs configurations",
  "all rooted trees of order up to five, a grid of stiff eigenvalues, polynomial degrees, layouts, Jacobian modes, directions and start times",
  "Tests compare a few final digits of adaptive runs; adaptivity hides an order reduction or a wrong coefficient by taking smaller steps.",
  RAD + " " + MAT, [("stage equations and transformed Newton iteration", RAD + ": Newton, slvrad"), ("method coefficients", RAD + ": constructor")])
p("C07", "The stiff solvers reach the end time with the requested accuracy",
  """For every problem, tolerance pair (scalar or per component), start step and direction of time in the bound, integration with the
  Radau or Rodas solver ends exactly at the requested end time with a solution whose error is within a fixed multiple of the tolerance;
  an empty interval leaves the solution and time unchanged. The result does not depend on layout, Jacobian mode or option settings
  beyond that accuracy.""",
  "inputs configurations",
  "full product of problems, tolerances, initial steps, directions, start times, layouts, Jacobian modes and option values in the bound",
  "Each test runs one problem forwards with one tolerance and option set.",
  RAD + " " + ROD, [("step size selection and end game", RAD + ": operator()"), ("step size selection and end game", ROD + ": operator()")])
p("C08", "Radau5 commits only steps that converged and passed the error test",
  """Whatever the right-hand side, the Jacobian supplied, the iteration limit and the Jacobian reuse policy, each point the Radau solver
  moves to from the previous one satisfies the method's stage equations to within a fixed multiple of the Newton tolerance and passes the
  local error test (a step ended by its first iteration relies on the contraction seen before, so it is bound by this only while the error of
  the supplied Jacobian does not change); when the Newton iteration fails, the step is retried with a smaller step size from the same point.""",
  "inputs histories configurations",
  "all combinations of problems, wrong-Jacobian factors (per call), iteration limits, reuse thresholds and step sizes in the bound; every accepted step of every run is judged",
  "Newton failure hardly occurs in the test problems and a falsely accepted step only costs some digits there.",
  RAD, [("simplified Newton loop and its exit reasons", RAD + ": Newton, NewtonIterationTest, operator()"), ("error estimate", RAD + ": estrad")])
p("C09", "Every integration stops, and respects the limit on the number of steps",
  """For every right-hand side, however hostile (not finite, discontinuous, oscillating or blowing up), every supplied Jacobian, and
  every start step, a call of the Radau or Rodas solver returns or throws after a bounded number of right-hand-side evaluations; no more
  than the configured maximum number of steps is attempted.""",
  "inputs fault_sequences configurations",
  "all sequences of right-hand-side and Jacobian answers from an alphabet of hostile values up to the depth bound, for several step limits, intervals and layouts",
  "Tests only run well-behaved problems far below the step limit.",
  RAD + " " + ROD, [("step limit", RAD + ": operator()"), ("step limit and minimal step", ROD + ": operator()")])
p("C10", "Each Rodas method has order four, an order-three estimate and full damping",
  """Each step committed by the Rodas solver satisfies all order conditions through order four and its error estimate those through
  order three, for autonomous problems and for problems that depend on time, for each selectable method, layout and way of computing
  Jacobian and time derivative; for linear systems the step has the method's stability function, which vanishes at infinity.""",
  "inputs configurations",
  "all rooted trees through order four with every placement of explicit time dependence, a grid of stiff eigenvalues, all three methods, layouts, Jacobian and time-derivative modes",
  "Tests use mostly one method on autonomous problems and see only a few digits of adaptive runs.",
  ROD + " " + MAT, [("method coefficients", ROD + ": rocoe"), ("stages", ROD + ": operator(), slvrod, DF_X")])
p("C11", "Rodas uses the tolerances it was given, component by component",
  """The weights used by the Rodas and Radau error tests are exactly those of the tolerances given: scalar tolerances apply to every
  component, vector tolerances component by component, from the first to the last, and nothing outside the caller's arrays is read;
  changing tolerances between integrations takes effect on the next one.""",
  "inputs histories configurations",
  "all assignments of tolerances from an alphabet to the components of systems up to size three, scalar and vector mode, all orders of set and integrate calls",
  "Tests only use scalar tolerances.",
  ROD + " " + RAD, [("tolerance set up", ROD + ": setTestPolicy"), ("tolerance set up", RAD + ": setTestPolicy")])
p("C12", "Rodas accepts, rejects and resizes steps by its documented error control",
  """For every history of local errors, the Rodas solver accepts a step exactly when its scaled error estimate is at most one, leaves
  time and state untouched by rejected steps, and chooses the next step by the documented controller: bounded growth and reduction, the
  predictive (Gustafsson) correction when enabled, no growth directly after a rejection, and never beyond the end of the interval.""",
  "histories inputs configurations",
  "all sequences of right-hand-side perturbations from the alphabet up to the depth bound, for each method, option set and direction; the run is compared call by call with an independent model of the controller",
  "Tests cannot force particular accept/reject histories.",
  ROD, [("error test and controller", ROD + ": operator()")])
p("C13", "Difference-quotient Jacobians match the true Jacobian and leave the state alone",
  """When the Jacobian is computed numerically, each of its entries inside the declared band equals the true partial derivative up to
  the truncation and rounding error of a one-sided difference with the documented increment, for every layout and for solution
  components of any sign and magnitude; the state handed to later evaluations is restored exactly, also when the right-hand side throws.""",
  "inputs configurations fault_sequences",
  "all layouts and bandwidths up to size five, states over an alphabet of signs and magnitudes, linear and quadratic systems, every fault position",
  "Tests that use numerical Jacobians look only at the final solution, and Newton forgives a wrong entry.",
  RAD + " " + ROD + " " + MAT, [("difference quotients", RAD + ": Jacobian"), ("difference quotients", ROD + ": Jacobian"), ("band limits", "common/include/Matrices.hpp: Ibegin, Iend")])
p("C14", "A solver object gives the same result whatever it did before",
  """The result of an integration (solution, time, counters and sequence of right-hand-side evaluations) depends only on the problem, the
  arguments and the settings in force: it is bit-identical on a fresh object, on one used for any sequence of earlier integrations
  (finished, failed or single-step), and whatever the uninitialised memory contained. Disjoint objects do not influence each other.""",
  "histories configurations",
  "all sequences of earlier uses up to the depth bound over an alphabet of problems, failures and settings, times several memory fillings, for every solver",
  "Tests integrate once per process, on freshly zeroed memory.",
  RAD + " " + ROD + " " + R4 + " " + SD + " " + SY, [("re-initialisation at the start of an integration", RAD + ": operator()"), ("re-initialisation", ROD + ": operator()"), ("re-initialisation", "Rock4-NG/include/Rock4.hpp: operator()")])
p("C15", "Solver objects used in different threads do not interfere",
  """Two solver objects that share no user data can be used at the same time from different threads: under every interleaving of their
  memory accesses each produces exactly the result it produces alone.""",
  "schedules",
  "all interleavings, at conflicting accesses, of two integrations by separate objects, for each solver",
  "Tests are single-threaded.",
  RAD + " " + ROD + " " + R4 + " " + MAT, [("no shared mutable state", "common/include/Hessenberg.hpp, Radau5cc.hpp, Rodascc.hpp, Rock4.hpp")])
p("C16", "Each Rock4 step has order four and the stability polynomial of its degree",
  """For every number of stages the Rock4 solver can choose, one step agrees with the exact solution through order four (all rooted trees),
  its stability polynomial is bounded by one over the real interval announced for that number of stages (up to one percent, which is what the
  published coefficients provide), and the estimate it uses
  for error control vanishes through order three.""",
  "inputs configurations",
  "all stage numbers the solver can select, all rooted trees through order four, a fine grid of real eigenvalues over the announced interval",
  "Tests run one diffusion problem, which visits few stage numbers and hides coefficient errors behind the error control.",
  R4, [("coefficient tables", "Rock4-NG/include/Rock4Coeffs.hpp"), ("three-term recurrence and finishing steps", "Rock4-NG/include/Rock4.hpp")])
p("C17", "Parallel Rock4 loops give the serial result under every thread schedule",
  """With parallel loops enabled, every vector operation, norm and error estimate of the Rock4 solver returns the serial result (up to the
  order of summation) for every number of threads, every distribution of iterations and every interleaving of the threads' memory
  accesses.""",
  "schedules configurations",
  "all interleavings of the threads at conflicting accesses, thread counts and vector lengths in the bound",
  "A race shows only under particular interleavings; the test runs one.",
  R4, [("parallel loops and reductions", "Rock4-NG/include/ToolOMP.hpp")])
p("C18", "Rock4 reaches the end time with the requested accuracy",
  """For every problem, tolerance, start step, spectral radius and direction in the bound, the Rock4 solver ends exactly at the end time with
  an error within a fixed multiple of the tolerance, without reporting a failure, and leaves the result in the caller's array.""",
  "inputs configurations",
  "full product of problems, tolerances, initial steps, interval positions and lengths in the bound",
  "One test problem with one tolerance.",
  R4, [("step size selection", "Rock4-NG/include/Rock4.hpp: operator()")])
p("C19", "The linear Rock4 variant gives the solution of the general one",
  """For linear and affine right-hand sides the linear Rock4 variant computes the same step as the general solver with as many stages, for
  every time step and spectral radius it can split, and reports a step that would need more stages than it has coefficients.""",
  "inputs configurations",
  "all stage numbers and time steps in the bound, linear and affine operators, vector lengths in and out of the alignment",
  "One test problem and one step size.",
  R4L + " " + R4, [("fused recurrences", "Rock4-L/include/Rock4L.hpp, rock4.hpp")])
p("C20", "Each diagonally implicit method has its order and stability function",
  """For every method offered by the diagonally implicit solver, a step for a linear or affine system equals the method's rational function
  of the operator applied to the data: it has the announced order, is bounded by one on the left half-plane where the method is A-stable,
  and the constant source term is integrated consistently.""",
  "inputs configurations",
  "all five methods, eigenvalue grids (real and complex, stiff and non-stiff), time steps, affine and linear mode, sequences of steps",
  "One heat equation test with a loose comparison.",
  SD, [("tableaux", "SDIRKL/include/RK*.hpp, CrN.hpp, EulerImp.hpp"), ("stage recursion", "SDIRKL/include/Sdirkl.hpp")])
p("C21", "The Gauss coefficient tables are the Gauss methods of every offered size",
  """For every number of stages offered and every precision, the nodes, weights and stage coefficients are those of the Gauss collocation
  method to the precision of the tables: nodes are the Legendre roots, weights sum to one, and the quadrature, collocation and symplecticity
  conditions hold.""",
  "configurations", "all numbers of stages and floating-point types offered, all conditions of each",
  "Tests use one or two sizes.",
  SY, [("generated tables", "SymplecticRK/sage/generated_coeffs.hpp, generated_coeffs_co.hpp"), ("table access", "SymplecticRK/include/GaussianMethod.hpp")])
p("C22", "Symplectic steps conserve quadratic invariants and are reversible",
  """A step of the symplectic Gauss solver conserves every quadratic first integral of the problem to rounding, is undone by a step of the
  opposite size, and agrees with the exact flow to the method's order, for every number of stages, floating-point type and step size for which
  it reports convergence.""",
  "inputs configurations histories",
  "all offered stage numbers, problems with quadratic invariants, step sizes and sequences of steps in the bound",
  "Tests print an energy error for one problem.",
  SY, [("fixed-point iteration", "SymplecticRK/include/SymplecticRK.hpp: step")])
p("C23", "A symplectic step solves its stage equations or leaves the state unchanged",
  """A step of the symplectic solver returns success exactly when its fixed-point iteration stopped changing within the iteration limit, and
  then the new state solves the stage equations to rounding whatever the starting guess; otherwise it returns failure and the state is unchanged.
  Roundoff accumulated over many steps stays compensated.""",
  "inputs histories configurations",
  "all iteration limits, problems that converge slowly or never, and sequences of succeeding and failing steps in the bound",
  "Tests never let the iteration fail.",
  SY, [("iteration and compensated update", "SymplecticRK/include/SymplecticRK.hpp: step"), ("starting guesses", "SymplecticRK/include/Extrap.hpp")])
p("C24", "Counters report what the solver really did",
  """After every call the numbers reported by a solver (right-hand-side evaluations, Jacobians, factorizations, steps, accepted and rejected
  steps, stages) equal what the user's functions observed during that call.""",
  "histories inputs configurations",
  "all problems, settings and accept/reject/Newton-failure histories in the bound, for every solver",
  "Tests print counters and never check them.",
  RAD + " " + ROD + " " + R4 + " " + R4L, [("counter updates", RAD), ("counter updates", ROD), ("counter updates", "Rock4-NG/include/Rock4.hpp")])
p("C25", "Every setting takes effect, and single-step mode advances exactly one step",
  """Each option of the stiff solvers (step limits for growth and reduction, safety factor, Newton limit and tolerance, Jacobian reuse, predictive
  control, step limit) changes the following integrations as documented and none is silently reset; in single-step mode a call advances
  solution and time together by one accepted step and reports it, so that repeated calls reach the end.""",
  "histories configurations",
  "all orders of option calls and integrations up to the depth bound, over alphabets of option values",
  "Tests call few setters and never single-step mode.",
  RAD + " " + ROD, [("setters", RAD), ("setters", ROD), ("single-step exit", RAD + ": operator()")])
p("C26", "An exception thrown by user code leaves the solver and the data usable",
  """When the right-hand side, Jacobian or time derivative throws at any point, the exception reaches the caller unchanged, the caller's
  solution is the last accepted one, no memory is corrupted or freed twice, and the same object then integrates correctly.""",
  "fault_sequences histories",
  "every call index of every user function in every problem and solver of the bound (single faults, and pairs of faults in successive calls)",
  "No test throws.",
  RAD + " " + ROD + " " + R4 + " " + SY, [("state held outside the caller's array until accepted", ROD), ("buffers and swaps", "Rock4-NG/include/Rock4.hpp"), ("in-place evaluation", RAD)])
p("C27", "All build modes give the same results",
  """The result of an integration is the same, up to rounding, in every build mode: with and without aligned allocation, debug checks, event
  logging, parallel loops, with optimisation and relaxed floating point, and with either compiler.""",
  "configurations inputs", "all combinations of the build switches in the bound, times the problems",
  "The test suite builds one mode.",
  "common/include/AllocateDestroyVector.hpp common/include/fortranVector.hpp common/include/MacrosForCompilers.hpp common/include/Ivdep.hpp " + RAD + " " + ROD + " " + R4,
  [("conditional code", "ALIGN_BLOCKED, DEBUG, LOGRADAU5, LOGRODAS, ROCK4_OMP")])
p("C28", "Rock4 accepts, rejects and resizes steps by its documented error control",
  """For every history of local errors, the Rock4 solver accepts a step exactly when its weighted error estimate is below one, recomputes rejected
  steps from the same point, bounds growth and reduction of the step, does not grow directly after a rejection, and uses at least as
  many stages as stability requires for the spectral radius reported.""",
  "histories inputs configurations",
  "all sequences of right-hand-side and spectral-radius perturbations from the alphabet up to the depth bound; the run is compared call by call with an independent model",
  "Tests cannot force particular accept/reject histories.",
  R4, [("controller", "Rock4-NG/include/Rock4.hpp: operator()"), ("stage number choice", "Rock4-NG/include/Rock4.hpp")])
p("C29", "Radau5 follows its documented Newton and step-size control",
  """For every history of right-hand-side answers, the Radau solver iterates, predicts, accepts, rejects, resizes, and refreshes its Jacobian and
  factorizations as the documented algorithm (Hairer and Wanner's RADAU5) prescribes, so that the sequence of points where it evaluates the
  right-hand side and the Jacobian is the documented one.""",
  "histories inputs configurations",
  "all sequences of right-hand-side and Jacobian perturbations from the alphabet up to the depth bound, problems and option sets; the run is compared call by call with an independent model",
  "Tests cannot force particular histories and see only the final state.",
  RAD, [("controller", RAD + ": operator()"), ("Newton iteration", RAD + ": Newton"), ("starting values", RAD + ": operator()")])
p("C30", "User functions are only called inside the interval of integration",
  """Whatever the user's functions answer, the Radau and Rodas solvers only call them at times between the point reached so far and the
  requested end (up to rounding; a difference quotient in time adds its documented increment), the time returned never goes back and never
  passes the end, every call that returns normally has advanced the time, and one outside single-step mode returns at the end: a problem
  that is defined on its interval only can be integrated, in both directions, and where the right-hand side ceases to be defined the
  integration stops with an exception, at a time before that point and with a finite solution.""",
  "histories inputs configurations",
  "every call of every run in the bound is monitored: problems, intervals of both directions and all magnitudes, start steps near and beyond the length of the interval, all placements of deviating answers",
  "A right-hand side of a test is defined everywhere and does not look at its time argument.",
  RAD + " " + ROD, [("clipping of the step at the end, stage times", RAD + ": operator(), Newton"), ("clipping of the step at the end, stage times", ROD + ": operator()")])
p("C31", "Jacobians are asked for at the point reached, with the derivative there",
  """Whenever the Radau or Rodas solver calls the user's Jacobian or time derivative, the time and the state are those of the point reached so far (in
  single-step mode the point returned before), and the value of the right-hand side handed over is bit for bit what the user's right-hand side
  answered at that point, in every history of accepted and rejected steps and failed Newton iterations; the answer of the right-hand side goes to
  an array apart from its argument, whose old contents do not matter. So users may compute Jacobians from the value handed over.""",
  "histories inputs configurations",
  "every call of every run in the bound is monitored: problems, intervals of both directions, analytic and difference derivatives, whole and single steps, all placements of deviating answers",
  "The Jacobians of the tests ignore the value they are handed.",
  RAD + " " + ROD, [("calls of the Jacobian", RAD + ": operator()"), ("calls of the Jacobian and of the time derivative", ROD + ": operator(), DF_X")])
p("C32", "Solvers release what they acquired, whatever the user's functions do",
  """Every solver (Radau, Rodas, Rock4, linear Rock4, SDIRK, symplectic) releases every block of memory it acquired exactly once and by the matching
  function, writes nothing outside its blocks, and does not accumulate blocks during an integration, in every build mode, also when the user's
  functions (the initialisation of a linear operator and the spectral radius included) throw an exception at any call; the exception reaches
  the caller, and a later run is not affected.""",
  "histories fault_sequences configurations",
  "an exception at every call index up to the bound, for every solver family, build mode, layout or size, option set, interval and start step in the bound",
  "No test throws from a user function, and no test looks at memory.",
  RAD + " " + ROD + " " + R4, [("work arrays", "Rock4-NG/include/Rock4.hpp: constructor, destructor, kernel"), ("work arrays", "SDIRKL/include/Sdirkl.hpp: constructor"), ("work array", "common/include/Matrices.hpp: decomr"), ("vectors", "common/include/fortranVector.hpp")])

p("C33", "Rock4 never commits an unusable state, whatever its user's functions answer",
  """Whatever the right-hand side answers (NaN, infinite, huge, alternating, undefined beyond some state), the Rock4 solver only moves to finite
  states at which the right-hand side is finite, each accepted step leads forward to at most the end time, a single unusable answer costs no
  accuracy, and the integration returns at the end or stops with an exception after which the caller's array holds the last accepted state.
  Whatever spectral radius is reported and whatever start step is given, the step made has at least the stages that stability requires; where
  there is none (a radius that is infinite, not a number or too large), Rock4 and its linear variant throw before the operator is applied.""",
  "inputs histories",
  "every placement of one (thorough two) hostile answers of the right-hand side and the spectral radius in the bound, single and lasting, start steps of every kind",
  "Tests have well-behaved right-hand sides and radii only.",
  R4 + " Rock4-L/include/Rock4L.hpp", [("choice of the number of stages", "Rock4-NG/include/Rock4.hpp: operator()"), ("error weight", "Rock4-NG/include/ToolOMP.hpp: rpp2"), ("choice of the number of stages", "Rock4-L/include/Rock4L.hpp: operator()")])

NA = {}
TECH = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        c = CHECKS.get(x["id"])
        if c is None:
            na.append(dict(property=x["id"], reason=NA.get(x["id"], "check not built yet")))
            continue
        checks.append(dict(property=x["id"], quick_cmd="python3 run.py %s --tier quick" % x["id"],
                           thorough_cmd="python3 run.py %s --tier thorough" % x["id"],
                           evidence_file="evidence/%s.json" % x["id"], technique=c["technique"], level=c["level"],
                           level_note=c["note"]))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
             notes="One stateless explorer (lib/mc.hpp) enumerates every choice sequence of each harness on the real headers of /repo; see DESIGN.md. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
