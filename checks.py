# Table of the checks: which harness binaries decide which property, with which bounds.
BASEFLAGS = ["-std=gnu++17", "-O1", "-g0", "-DGCC", "-w"]
BASELIBS = ["-llapack", "-lblas"]
C = ["@REPO/common/include"]


def U(name, src, defs=(), inc=(), **kw):
    return dict(name=name, src=src, defs=list(defs), inc=C + list(inc), **kw)


CHECKS = {}
EXPLORE = "stateless explicit-state exploration of the real code (exhaustive DFS over all choice sequences within the bound)"
TRUST = "Trusts gcc, LAPACK and the harness oracle (long double reference); nothing is sampled: every choice sequence in the stated bound is executed on the real headers."


def add(pid, units, bound, note="", technique=EXPLORE, level="model_checking", assumptions=(), rule="", **kw):
    CHECKS[pid] = dict(units=units, bound=bound, level=level, technique=technique, note=(note + " " + TRUST).strip(),
                       assumptions=list(assumptions), rule=rule, **kw)


def la(part):
    return [U("la%d_a" % part, "la.cpp", ["-DPART=%d" % part, "-DNMIN=1", "-DNMAX=3"]),
            U("la%d_b" % part, "la.cpp", ["-DPART=%d" % part, "-DNMIN=4", "-DNMAX=4"]),
            U("la%d_c" % part, "la.cpp", ["-DPART=%d" % part, "-DNMIN=5", "-DNMAX=5"]),
            U("la%d_d" % part, "la.cpp", ["-DPART=%d" % part, "-DNMIN=6", "-DNMAX=6"])]


LAB = "sizes 1..6; every (lower,upper) bandwidth, full and Hessenberg; all matrices over a 5-letter alphabet for n<=2, over a 3-letter alphabet when at most 9 (thorough 10) entries are in the band, 6 structured pivot-forcing fillings otherwise; all sequences of up to 5 (thorough 6) operations {new Jacobian, factor, solve}"
ILL = ["systems whose pivot ratio is below 1e-10 are skipped (rounding dominates)"]
add("C01", la(1), LAB, "Exhaustive over layouts, small-alphabet matrices and operation sequences on the real linear algebra.", assumptions=ILL)
add("C02", la(2), LAB, "Exhaustive over layouts, small-alphabet matrices and operation sequences on the real linear algebra.", assumptions=ILL)
add("C03", la(3), LAB, "Exhaustive over layouts and singular matrices; exactly representable cases, so singularity is exact.", assumptions=["only matrices whose elimination is exact in binary arithmetic"])
add("C04", [U("cont", "containers.cpp"), U("cont_dbg", "containers.cpp", ["-DDEBUG", "-fsanitize=address"]),
            U("cont_al", "containers.cpp", ["-DALIGN_BLOCKED", "-O2"])],
    "vectors and matrices of all small sizes and bandwidths; all sequences of 2-3 (thorough 3-4) operations out of 26 vector and 6 matrix operations, with all operand choices; plain, debug+AddressSanitizer and aligned builds")
add("C05", [U("elog", "eventlog.cpp")], "all sequences of up to 6 (thorough 7) record/clear/query operations over all event kinds")
R5 = ["@REPO/Radau5-NG/include"]
RO = ["@REPO/Rodas-NG/include"]
add("C06", [U("rorder%d" % k, "radau_order.cpp", ["-DPART=%d" % k], R5) for k in (1, 2, 3)],
    "all 17 rooted trees of order<=5, with leaves as components or as explicit time; 45 eigenvalues; polynomial degrees 0..4; 3 nonlinear families; 14 layouts, analytic/difference Jacobian, 4 step sizes of both signs, 3 start times")
add("C29", [U("rctl", "radau_ctl.cpp", ["-DPART=29"], R5)],
    "5 base problems x 10 option sets x directions x initial steps x analytic/difference/Hessenberg; every placement of up to 1 deviation (2 for the default options) of the user's functions among the first 26 (thorough 40) right-hand-side calls (6 kinds) and 4 Jacobian calls (7 kinds)",
    "Model: an independent long double RADAU5; each run is a trace validated call by call against the real solver; runs are compared up to the first decision closer than 2e-5 to its threshold.")
add("C10", [U("roorder%d" % k, "rodas_order.cpp", ["-DMETHOD=%d" % k], RO) for k in (1, 2, 3)],
    "3 methods; all 8 rooted trees of order<=4 (4 for the embedded result) with components or explicit time as leaves; 72 eigenvalues; one-step order on nonlinear time-dependent problems; 12 layouts/Jacobian modes, autonomous, analytic and difference time derivative; 4 step sizes of both signs, 3 start times")
add("C12", [U("roctl%d" % k, "rodas_ctl.cpp", ["-DMETHOD=%d" % k], RO) for k in (1, 2, 3)],
    "3 methods x 5 base problems x 6 option sets x directions x initial steps x analytic/difference/Hessenberg; every placement of up to 1 deviation (2 for two option sets; thorough: all with the full layout) of the user's functions among the first 30 (thorough 48) right-hand-side calls (6 kinds) and 3 Jacobian calls (5 kinds)",
    "Model: an independent long double RODAS; each run is a trace validated call by call against the real solver; runs are compared up to the first decision closer than 5e-5 to its threshold.")
add("C08", [U("rcommit", "radau_commit.cpp", [], R5)],
    "5 problems x 6 Newton limits x 4 reuse thresholds x 2 Newton tolerances x 2-3 tolerances x 2-3 start steps x layouts; every placement of up to 2 (thorough 3) wrong-Jacobian deviations (10 kinds, single or sustained) over the first 4 Jacobian calls; every accepted step of every run judged against a long double Radau IIA step",
    "Limits: 250 Newton tolerances for steps of one or two iterations, 30 for more; the estimate must be below one up to the Newton error.",
    assumptions=["one-iteration steps while the Jacobian's error varies are not judged (the documented test extrapolates the earlier contraction)"])
RK = ["@REPO/Rock4-NG/include"]
RKW = dict(libs=[])
add("C28", [U("rkctl", "rock_ctl.cpp", [], RK, **RKW)],
    "6 problems (1-4 components, up to stiff linear and reaction-diffusion) x 4 tolerances x 4 initial steps x 3 intervals; every placement of 1 deviation (2 for the usual settings; thorough: for 72 of the 96 settings of the first interval; the first of two on every third call) of the user's functions among the first 28 (thorough 40) right-hand-side calls (8 kinds, single or sustained) and the first 4 spectral radius calls (8 kinds)",
    "Model: an independent long double ROCK4 with the published tables; each run is a trace validated call by call against the real solver, with its log, counters and exceptions. A second, perturbed model run measures conditioning: runs are compared up to the first call where 1e-13 perturbations have grown beyond 1e-7 of the solution's variation, or the first decision too close to its threshold.")
add("C33", [U("rkhost", "rock_host.cpp", ["-DPART=0"], RK, **RKW), U("rkhost_ub", "rock_host.cpp", ["-DPART=0", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"], RK, **RKW),
            U("rklhost", "rock_host.cpp", ["-DPART=1"], ["@REPO/Rock4-L/include"], **RKW), U("rklhost_ub", "rock_host.cpp", ["-DPART=1", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"], ["@REPO/Rock4-L/include"], **RKW)],
    "Rock4: 6 problems x 2 tolerances x 9 start steps (zero, negative, NaN, huge and tiny ones too) x 3 intervals; every placement of 1 (thorough: 2 in the first interval) hostile answer, single or from then on: 11 kinds among the first 24 (thorough 40) right-hand-side calls, 11 among the first 3 (5) answers of the spectral radius. Linear variant: 4 sizes x 6 operators x 12 spectral radii x 7 steps x linear/affine x 2 intervals. Plain and UndefinedBehaviorSanitizer (float-cast-overflow) builds",
    "Oracle: the state is finite and a point where the right-hand side answered a finite value; accepted times; an accurate reference run for single unusable answers.",
    assumptions=["runs of more than 20000 calls are cut (the solver has no step limit)"])
add("C16", [U("rkstep", "rock_step.cpp", [], RK, **RKW)],
    "every number of stages 5..152 the solver can choose (middle and end of the range of spectral radii that leads to it); all 8 rooted trees of order<=4; 4 step sizes, 3 start times; 6000 (thorough 40000) real eigenvalues over the whole announced interval; 18 ratios by which a step can be too long",
    "Exhaustive over the numbers of stages, trees and step sizes on the real solver; the eigenvalue axis is a fixed grid.",
    assumptions=["stability is required up to one percent and up to 5e-5 of the announced length: the published coefficients are no better (degrees 63, 129, 148)"])
add("C18", [U("rkacc", "rock_acc.cpp", [], RK, **RKW)],
    "9 problems (1-12 components; decay, logistic, rotation, stiff linear, heat, reaction-diffusion, nonlinear) x 4 (thorough 6) tolerances x absolute/relative/both x 6 (for three problems 206, thorough 606) interval lengths x 4 start times x 9 initial steps (from 1e-8 to 10 times the interval) x 4 over-estimates of the spectral radius",
    "Each run is judged against a long double Runge-Kutta solution with step halving: no exception, end time, error within 120 tolerances.",
    assumptions=["forward integrations only (the solver offers no other)", "for tolerances of 1e-3 and more the error is judged only when the first step is at most a tenth of the interval"])
RL = ["@REPO/Rock4-L/include"]
def rl(name, defs=(), **kw):
    return dict(name=name, src=["rockl.cpp", dict(src="ng_model.cpp", defs=["-I@REPO/Rock4-NG/include"])], defs=list(defs), inc=C + RL, libs=[], **kw)
add("C19", [rl("rkl"), rl("rkl_asan", ["-fsanitize=address"]), rl("rkl_al", flags=["-std=gnu++17", "-O3", "-march=native", "-g0", "-DGCC", "-w", "-DALIGN_BLOCKED"])],
    "linear and affine problems x 4 kinds of operators (diffusion, nilpotent, diagonal up to the spectral radius, nonsymmetric) x every number of stages 5..152 and 6 beyond x 4 (thorough 8) sizes x 3-4 steps x 1-6 (for one setting 206) ratios of interval to step x start times x first or repeated call; plain, AddressSanitizer and aligned -O3 builds",
    "Model: an independent ROCK4 step with the tables of the general solver; each run is a trace validated against the real linear solver (result, steps, stages, evaluations, time); Taylor conditions and boundedness are judged from first principles.")
SD = ["@REPO/SDIRKL/include", "@REPO/SDIRKL/test/Lapl"]
add("C20", [U("sd", "sdirkl.cpp", [], SD, libs=[]), U("sd_asan", "sdirkl.cpp", ["-fsanitize=address"], SD, libs=[]),
            U("sd_O3", "sdirkl.cpp", [], SD, libs=[], flags=["-std=gnu++17", "-O3", "-march=native", "-g0", "-DGCC", "-w", "-DALIGN_BLOCKED"])],
    "all 5 methods x 6 kinds of operators (diagonal, complex eigenvalue pairs over the left half plane, nilpotent, diffusion, dense nonsymmetric, zero) x sizes 1..6 x 6 step sizes x linear/affine x 1..4 steps; plain, AddressSanitizer and aligned -O3 builds",
    "Oracle: the published Butcher tableau of each method evaluated in long double, Taylor conditions, boundedness in the left half plane; complete enumeration of the grid.")
SY = ["@REPO/SymplecticRK/include"]
add("C21", [U("gauss", "gauss.cpp", [], SY, libs=[])],
    "every number of stages 2..16 (and 1, 17, 23 refused) x double/long double x every sequence of up to 3 step sizes out of 6; every node, weight, coefficient and starting-value coefficient against quadruple precision; all quadrature, collocation and symplecticity conditions",
    "Oracle: Legendre roots and integrated Lagrange polynomials in quadruple precision; complete enumeration of the tables, tolerance two units of the last place.")
SYD = [("d", "double"), ("l", "long double")]
def sym(part, tag, lo, hi, **kw):
    return [U("sym%d%s%d%s" % (part, k, lo, tag), "sympl.cpp", ["-DPART=%d" % part, "-DPREC=%s" % t, "-DSMIN=%d" % lo, "-DSMAX=%d" % hi], SY, libs=[], **kw) for k, t in SYD]
add("C22", sym(22, "", 2, 8) + sym(22, "", 9, 16),
    "9 problems (rotation at 3 frequencies, rigid body, Kepler, quadrature of 3 degrees, pendulum, skew-symmetric, zero, Henon-Heiles, decay) x every number of stages 2..16 x double/long double x 8 step sizes of both signs x 1/6 (thorough 60) steps x constant or extrapolated starting values; each forward history is also run backwards",
    "Oracle: the Gauss method and exact flows in quadruple precision; limits are a few units of rounding.",
    assumptions=["comparisons stop when the problem has amplified rounding ten-thousandfold"])
add("C23", sym(23, "", 2, 8) + sym(23, "", 9, 16),
    "6 problems x numbers of stages 2..16 (long double quick: 10 of them) x 6 (thorough 8) iteration limits x every sequence of 3 steps (sizes, starting values, and in the second step a right-hand side that is not finite or a thousand times too big); histories of 400 (thorough 3000) steps for the accumulated rounding",
    "Every evaluation is traced: convergence is exactly that the last iteration changed nothing; stage equations, update and rounding judged in quadruple precision; object memory is poisoned before construction.")
ASAN = ["-fsanitize=address"]
def life(part, k, tag="", defs=(), **kw):
    return U("life%d_%d%s" % (part, k, tag), "life.cpp", ["-DPART=%d" % part, "-DMETHOD=%d" % k] + list(defs), R5 + RO, **kw)
def lifem(part, k, tag="", defs=(), **kw):
    return U("lifem%d_%d%s" % (part, k, tag), "life_misc.cpp", ["-DPART=%d" % part, "-DSOLVER=%d" % k] + list(defs), [RK, RL, SD, SY][k], libs=[], **kw)
AL = ["-DALIGN_BLOCKED"]
add("C26", [life(26, k) for k in range(4)] + [life(26, k, "_asan", ASAN) for k in (0, 1)] + [lifem(26, k) for k in range(4)] + [lifem(26, k, "_asan", ASAN) for k in range(4)],
    "every call of every user function in every run of the bound throws once: Radau and 3 Rodas methods (5-6 layouts, 3 problems, 3-4 option sets, both directions, 2 start steps), Rock4 (6 problems, 3 tolerances, 3 start steps, 2 start times), linear Rock4 (linear/affine, 4 sizes, 4 spectral radii, 3 ratios), diagonally implicit (5 methods, sizes, operators, 1-4 steps), symplectic (6 numbers of stages, 2 types, 4 steps, both starting values); then a second fault and the whole problem once more; plain and AddressSanitizer builds",
    "Oracle: a traced undisturbed run of the same problem; the object must afterwards repeat it bit for bit.",
    assumptions=["user functions of the linear Rock4 variant throw before they write their output"])
add("C14", [life(14, k) for k in range(4)] + [lifem(14, k) for k in range(4)],
    "all histories of up to 2 (thorough 3) earlier uses out of 11 for the stiff solvers (other problem, backwards, fault at 4 places, step limit reached, single step, empty interval, other tolerances and settings, hostile problems, other objects) and 5-8 for the others, x probe problems x options x 4 memory fillings (heap, object, stack)",
    "Oracle: the same probe integration on a fresh object in zeroed memory: result, time, counters and the sequence of user calls must be bit-identical.",
    assumptions=["the symplectic solver's compensation term belongs to its state: its histories contain only steps that did not complete and other objects"])

add("C24", [U("cnt_r", ["radau_ctl.cpp", "lapackcount.cpp"], ["-DPART=24"], R5, libs=BASELIBS + ["-ldl"])]
    + [U("cnt_ro%d" % k, ["rodas_ctl.cpp", "lapackcount.cpp"], ["-DPART=24", "-DMETHOD=%d" % k], RO, libs=BASELIBS + ["-ldl"]) for k in (1, 2, 3)]
    + [U("cnt_rk", "rock_ctl.cpp", ["-DPART=24"], RK, **RKW), rl("cnt_rkl", ["-DPART=24"])],
    "the runs of C29, C12, C28 and C19 with deviations among fewer calls (Radau 9/30, Rodas 8/24, Rock4 7/20 in quick/thorough), on the first and on the second call of an object",
    "Every LAPACK factorization, Jacobian and right-hand-side call is counted by the harness; steps, acceptances and rejections are those of the model the run conforms to (runs that do not conform are not judged here).")
add("C25", [U("opts%d" % k, "opts.cpp", ["-DMETHOD=%d" % k], R5 + RO) for k in range(4)],
    "Radau and 3 Rodas methods x 5 problems x directions: every subset of the settings (8 for Radau, 4 for Rodas) with two values each, for one and two integrations; every order of up to 2 setter calls before and 1 (thorough 2) between integrations; single steps repeated up to the end for every subset of settings and 2 start steps; single-step mode switched on and off at every place of sequences of up to 4 operations",
    "Model: the independent RADAU5/RODAS with the settings in force, compared call by call; runs are compared up to the first decision too close to its threshold.",
    assumptions=["setting tolerances renews the default Newton tolerance"])
add("C07", [U("sacc%d" % k, "stiff_acc.cpp", ["-DMETHOD=%d" % k], R5 + RO) for k in range(4)],
    "Radau and 3 Rodas methods x 11 problems (1-4 components: coupled nonlinear, stiff, logistic, Van der Pol, oscillator, Robertson, complex eigenvalues, quadrature) x 3-5 intervals of both directions x 6 layouts/Jacobian modes x 6 tolerances x 4 kinds (equal, small absolute, per component, small relative) x 5 (thorough 14) initial steps (1e-9 to 1e6 intervals) x 3-5 option sets",
    "Each run is judged against a long double Runge-Kutta solution with step halving: no exception, exact end time, error within 80 (Radau) or 5 (Rodas) tolerances times the problem's amplification; then an empty interval must change nothing.",
    assumptions=["for a relative tolerance far below the absolute one Radau's documented scaling of the tolerances is allowed for", "Robertson's problem only with absolute tolerances up to 1e-6"])

add("C13", [U("jfd%d_%s" % (k, nm), "jac_fd.cpp", ["-DMETHOD=%d" % k, "-DNMIN=%d" % a, "-DNMAX=%d" % b], R5 + RO) for k in (0, 1) for nm, a, b in (("a", 1, 3), ("b", 4, 4), ("c", 5, 5))],
    "Radau and Rodas; sizes 1..5 with every pair of bandwidths (unsymmetric ones included), full and Hessenberg; 4 kinds of functions (linear to quadratic, with products and explicit time) with 1-4 fillings and 2 scales; states with components out of 10 values (0, 1e-8 .. 1e6, both signs; all states for up to two components); 4 times, both directions; 3 consecutive steps, each difference Jacobian of which is judged; an exception at every evaluation of the difference quotients",
    "Oracle: the exact partial derivatives in long double with the rounding and truncation limits of the documented increment; every evaluation's argument is compared with the documented perturbation.",
    assumptions=["Hessenberg option: the reduced Jacobian is judged by its characteristic polynomial"])

add("C11", [U("tol%d" % k, "tols.cpp", ["-DMETHOD=%d" % k, "-fsanitize=address"], R5 + RO) for k in range(4)],
    "Radau and 3 Rodas methods x 6 layouts (1-4 components, full, banded, Hessenberg) x 3 problems x both directions x 2 start steps x every assignment of 2-3 tolerance pairs to the components x given in the constructor, set later, changed between two integrations (vector to vector, vector to scalar) or scalar; the arrays have exactly the documented size (AddressSanitizer) and are wiped right after the call",
    "Model: the independent RADAU5/RODAS with the tolerances in force, compared call by call up to the first decision too close to its threshold; settings whose plain scalar run does not conform are left to C12/C29.")

add("C09", [U("host%d" % k, "hostile.cpp", ["-DMETHOD=%d" % k], R5 + RO) for k in range(4)],
    "Radau and 3 Rodas methods x 5 layouts/Jacobian modes x step limits 1, 2, 5, 40, 300 x 4 intervals (both directions, tiny, at 1e10) x 3-7 start steps (0, 1e-320 .. 1e300, wrong sign) x tolerances x options; every placement of 1 hostile answer of the right-hand side (14 kinds: not finite, huge, discontinuous, oscillating, blowing up, random-like; 10 places among the first 90 calls; once, three times, from then on) or of the Jacobian (8 kinds, first 3 calls); pairs of them for step limit 5 (thorough: up to 40)",
    "Oracle: the number of calls any run of at most that many steps can make; attempted steps are counted from the calls.")

# C27: build modes. Each runner is compiled with its own flags and its own name of the namespace.
NAT = ["-march=native", "-ftree-vectorize", "-fstrict-aliasing"]
LOGS = ["-DLOGRADAU5", "-DLOGRODAS", "-DLOGROCK4"]
FAST = ["-ffast-math"]
ALB = ["-DALIGN_BLOCKED"]
MODES = {0: ["-O1", "-DGCC"], 1: ["-O0", "-DGCC"], 2: ["-O3", "-DGCC"] + NAT + FAST, 3: ["-O2", "-DGCC"] + ALB, 4: ["-O3", "-DGCC"] + ALB + NAT + FAST,
         5: ["-O1", "-DGCC", "-DDEBUG"], 6: ["-O2", "-DGCC"] + LOGS, 7: ["-O3", "-DGCC", "-DDEBUG"] + ALB + LOGS,
         8: ["-O3", "-DCLANG", "-march=native"], 9: ["-O2", "-DCLANG", "-DDEBUG"] + ALB + LOGS, 10: ["-O3", "-DCLANG", "-march=native"] + FAST + ALB,
         11: ["-O2", "-DGCC", "-DROCK4_OMP", "-fopenmp"], 12: ["-O3", "-DGCC", "-DROCK4_OMP", "-fopenmp"] + ALB + NAT}
FAMINC = [R5, RO, RK, RL, SD, SY]
def mode(fam, ks, tag):
    def one(k):
        return dict(src="mode_run.cpp", cc="clang++" if k in (8, 9, 10) else "g++", flags=["-std=gnu++17", "-g0", "-w"] + MODES[k], defs=["-DFAM=%d" % fam, "-DMODE=%d" % k, "-Dodes=odes_%d" % k])
    return U("mode%d%s" % (fam, tag), ["mode.cpp", one(0)] + [one(k) for k in ks], ["-DFAM=%d" % fam, "-DMODES=" + " ".join("X(%d)" % k for k in ks)], FAMINC[fam], lflags=["-fopenmp"] if fam == 2 else [], libs=BASELIBS if fam < 2 else [])
add("C27", [mode(f, tuple(range(1, 13 if f == 2 else 11)), "") for f in range(6)],
    "6 solver families (Radau, 3 Rodas methods, Rock4, linear Rock4, 5 diagonally implicit methods, 4 sizes of the symplectic one) x 12 build modes besides the plain one (no optimisation, -O3 native with relaxed floating point, aligned allocation, debug checks, event logging, parallel loops, clang, combinations) x problems, layouts, Jacobian modes, options, intervals of both directions, start steps, alignments of the caller's array",
    "Differential: all modes are linked into one program; results must agree up to the sensitivity of the plain build to perturbations of 1e-13, with the same counters; runs in which such perturbations change a decision are judged by the tolerance only.")

# C15: the solvers compiled with the hooks of ThreadSanitizer (no optimisation, so that every access of the source is seen)
WRAPS = ["-Wl,--wrap=" + s for s in "malloc free calloc posix_memalign aligned_alloc pthread_mutex_lock dgetrf_ zgetrf_ dgbtrf_ zgbtrf_ dgetrs_ zgetrs_ dgbtrs_ zgbtrs_ dgehrd_".split()]
def conc(tag, fams, defs=()):
    def one(f):
        return dict(src="mode_run.cpp", cc="clang++", flags=["-std=gnu++17", "-O0", "-g0", "-w", "-DCLANG", "-fsanitize=thread"],
                    defs=["-DCONC", "-DFAM=%d" % f, "-DMODE=f%d" % f] + list(defs), inc=["@REPO/common/include"] + FAMINC[f])
    return dict(name="conc" + tag, src=[one(f) for f in fams] + ["conc.cpp"], defs=["-DFAMS=" + " ".join("X(%d)" % f for f in fams)], inc=C, lflags=["-Wl,-z,muldefs"] + WRAPS, libs=BASELIBS + ["-lpthread"])
add("C15", [conc("", (0, 1, 2, 4, 5)), conc("_l", (3,)), conc("_dbg", (0, 1, 2), LOGS + ["-DDEBUG", "-DALIGN_BLOCKED"])],
    "all pairs of integrations out of 15 (Radau), 45 (Rodas), 10 (Rock4), 10 (linear Rock4), 50 (diagonally implicit), 8 (symplectic) problems, layouts and options of one family, and 2-20 of each of two families; every schedule with up to 1 preemption (2 for integrations whose numbers of points multiply to less than 900; thorough: 2, and 3 for short ones) at calls of user functions, of LAPACK and at conflicting accesses; plain, and debug+logging+aligned builds",
    "The memory accesses of both integrations are recorded through the hooks of ThreadSanitizer; pairs without conflicting accesses have a single class of interleavings, whatever the number of preemptions; static data is restored before each execution. Results, counters and the sequence of user calls must be bit-identical to those of the integration alone.",
    assumptions=["sequentially consistent memory", "LAPACK's accesses are those to its arguments"],
    technique="stateless exploration of thread schedules of the real code under a controlled scheduler, with partial-order reduction from recorded accesses")

# C17: the parallel loops of Rock4 under a replacement of the OpenMP runtime
def ompu(tag, o, defs=()):
    par = dict(src="mode_run.cpp", flags=["-std=gnu++17", o, "-g0", "-w", "-DGCC", "-fopenmp", "-fsanitize=thread"], defs=["-DROCK4_OMP", "-DCONC", "-DFAM=2", "-DMODE=par"] + list(defs))
    ser = dict(src="mode_run.cpp", flags=["-std=gnu++17", "-O1", "-g0", "-w", "-DGCC"], defs=["-DCONC", "-DFAM=2", "-DMODE=ser", "-Dodes=odes_ser"])
    return U("omp" + tag, [par, ser, "omp.cpp"], [], RK, lflags=["-Wl,-z,muldefs", "-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign"], libs=[])
add("C17", [ompu("", "-O0"), ompu("_O2", "-O2", ["-DALIGN_BLOCKED"])],
    "1..3 (thorough 4) threads x 3 problems x sizes 1, 2, 7, 8, 33 x 2 tolerances x 2 kinds x 3 start steps; for each of the first 2-4 (thorough 12) parallel regions with conflicting accesses: every order of the members and every schedule with up to 2 preemptions (1 when a region has more than 16 places) at conflicting accesses and atomic operations, x 3 orders of the members in all other regions; -O0 and aligned -O2 builds",
    "The harness is the OpenMP runtime: members of a team are coroutines; accesses are recorded through the hooks of ThreadSanitizer, regions without conflicts have a single class of interleavings. Oracle: the serial build, up to its sensitivity to rounding.",
    assumptions=["sequentially consistent memory", "the user's right-hand side is serial"],
    technique="stateless exploration of thread schedules of the real code under a controlled scheduler, with partial-order reduction from recorded accesses")

# C30: where the user's functions are called
add("C30", [U("dom%d" % k, "domain.cpp", ["-DMETHOD=%d" % k], R5 if k == 0 else RO) for k in range(4)],
    "Radau and 3 Rodas methods x 5 base problems x 8 intervals (both directions, through zero, at 1e6, tiny, long) x 8 start steps (the length of the interval, just above and below it, ten times it, wrong sign, 1e-14, 0) x analytic/difference derivatives x whole integration or single steps x 3 option sets x 2 tolerances; every placement of 1 (thorough: 2) deviation of the user's functions (8 kinds, NaN and infinity included) among the first 16 (thorough 30) right-hand-side calls and 3 Jacobian calls; step limit 40 (thorough 150)",
    "Monitor: every call's time lies between the point reached and the end of the interval (4 ulp; the documented increment for time derivatives by differences); the time returned never goes back, never passes the end, and is the end when the call returns normally.")

# C32: memory
MEMW = ["-Wl,--wrap=" + s for s in "malloc free calloc realloc posix_memalign aligned_alloc".split()]
MEMM = {0: ["-O1", "-DGCC"], 1: ["-O1", "-DGCC"] + ALB, 2: ["-O1", "-DGCC", "-DDEBUG"] + LOGS, 3: ["-O2", "-DGCC", "-DDEBUG"] + ALB + LOGS}
def memu(fam):
    def one(k):
        return dict(src="mode_run.cpp", flags=["-std=gnu++17", "-g0", "-w"] + MEMM[k], defs=["-DCONC", "-DMEMRUN", "-DFAM=%d" % fam, "-DMODE=%d" % k, "-Dodes=odes_%d" % k])
    return U("mem%d" % fam, ["memory.cpp"] + [one(k) for k in MEMM], ["-DFAM=%d" % fam, "-DMODES=" + " ".join("X(%d)" % k for k in MEMM)], FAMINC[fam], lflags=MEMW, libs=BASELIBS if fam < 2 else [])
add("C32", [memu(f) for f in range(6)],
    "6 solver families (Radau, 3 Rodas methods, Rock4, linear Rock4, 5 diagonally implicit methods, 4 sizes of the symplectic one) x 4 builds (plain, aligned, debug+logging, all) x problems, layouts or sizes, options, intervals (empty too), tolerances, start steps; an exception of the user's code at every one of the first 60 (thorough 400) calls and the last 8, or none",
    "Every acquisition and release of the code under test ends in the harness, with guard zones: after each run nothing is left, every release matches; the number of blocks in use does not grow during an integration; a run after an exception acquires what it acquired before.")

# C31: what user functions are handed
add("C31", [U("args%d" % k, "args.cpp", ["-DMETHOD=%d" % k], R5 if k == 0 else RO) for k in range(4)],
    "Radau and 3 Rodas methods x 5 base problems x 4 intervals x analytic/difference derivatives, Hessenberg, non-autonomous variants x whole integration or single steps x options x 2 tolerances x 3 start steps; every placement of 1 (thorough: 2) deviation of the user's functions (7 kinds at the first 24 (thorough 40) right-hand-side calls, 4 kinds at 3 Jacobian calls); step limit 60 (thorough 200)",
    "Monitor: a Jacobian or time derivative is asked for at a point where the right-hand side was evaluated, in single-step mode the point returned before, and the Fy handed over is bit for bit the answer given there; the answer of the right-hand side goes to an array apart from its argument.")
