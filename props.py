"""The property table: what each property says, where it is anchored, and which symbolic entries decide it."""
def E(entry, harness, **k):
    d = {"entry": entry, "harness": harness}
    d.update(k)
    return d
PROPS = {}
NA = {}   # property -> reason it is not claimed (still listed in properties.jsonl)
REALS = "floating-point scalars are encoded as exact reals (rounding is outside these checks unless an entry says IEEE)"
def prop(id, title, statement, over, quant, why, files, mech, entries, bounds, outside, assumptions=(), note="", state=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                     mech=[{"name": n, "where": w} for n, w in mech], entries=entries, bounds=bounds, outside=outside,
                     assumptions=list(assumptions), note=note, state=state)
TH = dict(tier="thorough")

F = "forces.cpp"
prop("P01", "Newtonian gravity is the pairwise inverse-square law",
  "For every particle set, the gravitational acceleration added to each body is the sum over every other body of that body's mass times the separation divided by the cubed distance (G=1), on top of what the output held before. The result is the same whether the state is kept as plain Cartesian coordinates or as chain coordinates with any ordering of the chain, and the mutual forces leave the total momentum and angular momentum unchanged.",
  ["inputs", "configurations"], "all real masses > 0, all positions, every chain ordering, 2 to 4 bodies (5 for the chain in the thorough tier)",
  "The tests integrate a few fixed systems and look at the energy error; they do not visit every index pair, chain ordering and chain-distance branch with arbitrary masses.",
  ["src/interaction/newtonian.hpp"], [("direct pair loop", "src/interaction/newtonian.hpp: NewtonianGrav::add_acc_to"), ("chain-distance reuse for neighbours up to two links apart", "src/interaction/newtonian.hpp: chain branch")],
  [E("newton_d2", F), E("newton_d3", F), E("newton_d4", F), E("newton_c2", F), E("newton_c3", F), E("newton_c4", F, cost=9), E("newton_mom3", F), E("newton_f5", F), E("newton_f6", F), E("newton_m7", F), E("newton_d5", F, **TH), E("newton_c5", F, cost=50, tier="thorough")],
  "2..4 bodies direct and chain (every permutation as chain order; thorough: 5); 5 and 6 bodies with three orderings, 7 bodies with three orderings, symbolic masses at fixed places", "more bodies; rounding; coincident bodies (division by zero distance)", [REALS, "distinct bodies are at non-zero distance (denominators assumed non-zero)"])
prop("P02", "Energy, momentum and mass-centre diagnostics match their definitions",
  "Reported kinetic, potential and total energy, energy error, total, subset and isolated angular momentum, mass centre, and free-fall time equal their physical definitions for every state, with or without chain coordinates. The gravitational acceleration is exactly minus the gradient of the reported potential energy divided by mass. Moving to the mass-centre frame zeroes the mass-weighted sums and changes no relative position or velocity.",
  ["inputs", "configurations"], "all masses > 0, positions, velocities; every chain ordering; every subset; 2-4 bodies",
  "Tests evaluate energies only through integration of a few fixed systems with loose thresholds; no test relates the force to the gradient of the reported potential.",
  ["src/core-computation.hpp", "src/interaction/newtonian.hpp"], [("diagnostics", "src/core-computation.hpp: calc_* functions"), ("frame shift", "src/core-computation.hpp: move_to_com")],
  [E(e, "energy.cpp") for e in "diag2 diag3 diag4 chainU2 chainU3 chainU4 pairU grad3 grad4 gradc3 gradc4 subL2 subL3 com2 com3 com4 fall2 fall3".split()] + [E("chainU5f", "energy.cpp"), E("chainU8f", "energy.cpp"), E("chainU5", "energy.cpp", tier="thorough")],
  "2..4 bodies, every chain permutation, every subset of up to 3 bodies; chain potential for 5 and 8 bodies with three orderings", "more bodies; rounding", [REALS, "free-fall time: bodies on a line in increasing order, masses >= 1e-6, coordinates <= 1e6"])
prop("P03", "Post-Newtonian corrections are the textbook two-body terms",
  "For every pair of bodies the 1PN, 2PN and 2.5PN accelerations are the harmonic-coordinate expressions of the general-relativistic equations of motion, scaled by the right power of the speed of light and symmetric under exchange of the bodies. The correction on a body is the sum over all pairs and does not depend on whether plain or chain coordinates are in use, nor on the chain ordering.",
  ["inputs", "configurations"], "all masses > 0, positions, velocities; every chain ordering; 2-4 bodies",
  "The tests compile the post-Newtonian terms but check no coefficient; a wrong velocity-dependent coefficient changes only tiny terms.",
  ["src/interaction/post-newtonian.hpp"], [("1PN, 2PN, 2.5PN pair terms", "src/interaction/post-newtonian.hpp: PN1, PN2, PN2p5"), ("pair loops", "src/interaction/post-newtonian.hpp: add_acc_to of each term")],
  [E(f"{p}_{s}", F) for p in ("pn1", "pn2", "pn25") for s in ("d2", "d3", "d4", "c2", "c3")] + [E("pn1_c4", F, cost=8), E("pn25_c4", F, cost=8), E("pn2_c4", F, cost=20), E("pn1_f5", F), E("pn25_f5", F), E("pn1_m7", F), E("pn2_m7", F), E("pn25_m7", F), E("pn2_t5", F, **TH), E("pn1_c5", F, **TH), E("pn25_c5", F, **TH)],
  "2..4 bodies direct and chain, every chain permutation; 5 bodies (1PN, 2.5PN) and 7 bodies (symbolic masses, fixed places) with three orderings", "more bodies; rounding; the value of G in code units is taken as 1 as in the rest of the code", [REALS, "oracle: Blanchet, Living Rev. Relativity, eq. of motion in harmonic coordinates (1PN, 2PN, 2.5PN terms)"])
prop("P04", "Tidal, gas-drag and accretion-disk forces follow their laws and recoil",
  "The tidal force is the equilibrium-tide pair law with constant time lag, acting along the line of centres, equal and opposite on the two bodies. Static gas drag is antiparallel to the velocity with its sub- and supersonic magnitude; disk forces are antiparallel to the motion relative to the rotating gas, have the documented magnitude in each Mach-number regime, and the central body takes the exact recoil. Table look-ups stay inside their tables and are piecewise linear.",
  ["inputs", "configurations"], "all masses, radii, tidal constants (zero or positive), lag times, positions, velocities; every chain ordering; all table arguments",
  "These interactions have no unit test at all beyond compilation; table boundaries and regime switches are single points.",
  ["src/interaction/tidal.hpp", "src/interaction/static-gas-drag.hpp", "src/interaction/alpha-disk.hpp", "src/interaction/magneto-disk.hpp", "src/interaction/disk-capture-star.hpp"],
  [("tidal pair law", "src/interaction/tidal.hpp"), ("gas drag", "src/interaction/static-gas-drag.hpp"), ("alpha disk", "src/interaction/alpha-disk.hpp"), ("magnetised disk tables", "src/interaction/magneto-disk.hpp: interpolate"), ("disk capture", "src/interaction/disk-capture-star.hpp")],
  [E("tide_d2", F), E("tide_d3", F), E("tide_c2", F), E("tide_c3", F, cost=30), E("tide_mom2", F), E("tide_m5", F)] + [E(e, "drag.cpp") for e in "gas1 gas2 capture_law capture2 capture3 alpha_aero2 alpha_mag_df alpha_mag_aero alpha_mag_both disk_table magneto_low magneto_low_fast magneto_high magneto_high_fast magneto2".split()] + [E(e, "drag.cpp", cost=25) for e in "disk_table_rho disk_table_height disk_table_speed disk_table_friction magneto_in magneto_in_mid".split()] + [E("disk_table_ieee", "drag.cpp", flags=["--fp", "11,53", "--qtime", "60"], cost=10), E("tide_d4", F, cost=40, tier="thorough")],
  "tide 2-3 bodies (4 thorough), drag 1-2 bodies, disk 2-3 bodies; look-up of the real table in IEEE double arithmetic for the last 450 doubles below its end", "the numbers in the magnetised-disk tables; rounding elsewhere", [REALS, "exp, log and pow are uninterpreted functions with their algebraic identities"])
I5 = "comp_none comp_i comp_d comp_id comp_di comp_did comp_idi comp_ddii comp_real".split()
prop("P05", "Any combination of forces composes additively, each applied once",
  "For every list of extra forces the total acceleration is the internal force plus each extra force exactly once, independent of what the output held before. The velocity-dependent and velocity-independent parts split the extra forces exactly, the compile-time flags report which parts exist, and evaluating forces leaves the particle state unchanged.",
  ["inputs", "configurations"], "arbitrary (symbolic) force values per body, eight shapes of force lists with up to four extra forces, 2-3 bodies",
  "The tests use at most one or two fixed force lists and never look at the split into velocity-dependent and independent parts.",
  ["src/interaction/interaction.hpp"], [("variadic dispatch", "src/interaction/interaction.hpp: Interactions::eval_*"), ("storage", "src/interaction/interaction.hpp: InteractionData")],
  [E(e, "interactions.cpp") for e in I5], "lists of 0..4 extra forces in the listed orders; 2-3 bodies", "longer lists", [REALS])

SYSALL = ["simple", "chain", "logh", "ttl", "none", "arlogh", "arttl", "arnone"]
def sysE(sel, names, forces, ents, **k):
    return [E(f"{s}_{f}_{e}", "systems.cpp", defs=[f"-DSEL={sel}"], **k) for s in names for f in forces for e in ents]
SYSF = ["src/particle-system/base-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/archain.hpp", "src/type-class.hpp"]
prop("P06", "The integration state vector is a faithful round trip of the particle system",
  "For every particle system, loading a state vector and writing it back returns the same numbers, its length is the advertised one, and its blocks (time, positions, velocities, auxiliary velocities, regularisation variables) describe exactly the physical state seen through the accessors, also when it is held in chain coordinates. A vector of any other length is rejected. Construction and the hooks around a step keep the physical state (a chain is ordered by the positions from the start); the pre-step hook makes the auxiliary velocities equal to the velocities.",
  ["inputs", "configurations"], "all numbers in the vector, all masses, every chain ordering before and after re-chaining, 8 system kinds x 4 shapes of extra forces, 2-4 bodies",
  "Tests only see the end result of integrations; a permuted or stale block that is loaded and written consistently, or a re-chaining seen only for some orderings, is never compared.",
  SYSF, [("write/read_from_scalar_array and offsets", "src/particle-system/*.hpp"), ("coordinate blocks", "src/type-class.hpp: load_to_coords, add_coords_to"), ("re-chaining", "src/particle-system/chain-system.hpp, archain.hpp: post_iter_process")],
  sysE(6, SYSALL, "nb", ["rt3"]) + sysE(6, SYSALL, "d", ["new", "pre"]) + sysE(6, SYSALL, "nd", ["len"]) + sysE(6, ["chain", "arlogh"], "nb", ["post3"]) + sysE(6, ["simple", "logh"], "d", ["rt2", "rt4"]) + sysE(8, SYSALL, "d", ["ki2"])
  + sysE(6, ["chain", "arlogh", "arttl", "arnone"], "id", ["rt4"], tier="thorough") + sysE(6, ["chain", "arlogh"], "nd", ["post4"], tier="thorough"),
  "2-3 bodies (4 thorough), every old and new chain ordering", "more bodies; chain re-ordering entries place the bodies on a line with arbitrary offset and velocities", [REALS])
prop("P07", "Chain coordinates: shortest-link ordering and exact conversion",
  "The chain ordering is a permutation of the bodies that starts with the closest pair and repeatedly appends the body closest to either end. Converting to chain coordinates and back, in either direction, is the identity, and re-ordering an existing chain gives exactly what a fresh conversion with the new ordering gives.",
  ["inputs", "configurations"], "all positions / all pair distances (pairwise different), every ordering, 2-6 bodies",
  "Tests run few-body systems whose chain is simple; the restart rule of the construction only matters from four bodies on and for particular distance orders.",
  ["src/particle-system/chain.hpp"], [("greedy construction", "src/particle-system/chain.hpp: calc_chain_index"), ("conversion", "src/particle-system/chain.hpp: calc_chain, calc_cartesian"), ("re-ordering", "src/particle-system/chain.hpp: update_chain")],
  [E(e, "chain.cpp") for e in "greedy2 greedy3 conv2 conv3 conv4 upd2 upd3 upd4 updl5 updl6 updl8 conv5 upd4all upd5".split()] + [E("label4" + c, "chain_label.cpp", cost=20, optional=True) for c in "abcdef"] + [E("label3", "chain_label.cpp", optional=True)] + [E("label5", "chain_label.cpp", defs=[f"-DFIRST={k}"], cost=11, optional=True) for k in range(10)] + [E("label6any", "chain_label.cpp", cost=90, optional=True)] + [E("label6", "chain_label.cpp", defs=[f"-DFIRST={k}"], cost=90, optional=True, tier="thorough") for k in range(15)] + [E("conv6", "chain.cpp", **TH), E("upd5all", "chain.cpp", **TH), E("upd6", "chain.cpp", **TH)],
  "ordering: 2-3 bodies at arbitrary positions, 4 bodies with arbitrary pair distances (a superset of Euclidean ones, 6 cases by closest pair), 5 bodies with every choice and order of the three shortest pairs and 6 with every choice of the two shortest (thorough: three), the others in two fixed orders, arbitrary distances in that order; conversion 2-5 bodies (6 thorough); re-ordering between all pairs of orderings for 3 and 4 bodies (5 thorough), from one to all for 5 (6 thorough), every new end link of 5, 6 and 8 bodies",
  "equal distances (the order is then not unique; only that it is a permutation is checked); more bodies", [REALS])
prop("P08", "Drift and kick of plain and chain systems advance exactly what they should",
  "A drift advances time by the step and every position by velocity times step and nothing else; a kick advances velocities by the acceleration of the current state times step, with velocity-dependent forces through the auxiliary-velocity leapfrog (half, full, half). Plain and chain systems produce the same physical state, and the collected increments equal the change of the state vector exactly when collection is on and are untouched when it is off.",
  ["inputs", "configurations"], "all states, masses, steps, arbitrary symbolic accelerations with linear position/velocity dependence, every chain ordering, four shapes of extra forces, 2-4 bodies",
  "Tests look at energy errors of few orbits; swapped auxiliary velocities or increments that disagree with the state stay within tolerance.",
  SYSF[:2], [("drift/kick", "src/particle-system/base-system.hpp, chain-system.hpp"), ("increment collection", "sync_*_increment in the same files")],
  sysE(8, ["simple", "chain"], "nidb", ["dr3", "ki2", "ki3"]) + sysE(8, ["simple", "chain"], "b", ["dk2"]) + sysE(8, ["simple", "chain"], "b", ["dr4", "ki4", "dk3"], tier="thorough"),
  "2-3 bodies (4 thorough), one drift, one kick, and their composition", "forces which depend non-linearly on velocity (the real ones are P03/P04)", [REALS])
prop("P09", "The general derivative is the equation of motion of the state vector",
  "For every system the derivative vector handed to non-symplectic integrators is, entry by entry, the rate of change of the state vector: time rate, velocity times time rate, total acceleration times time rate (also for the auxiliary velocities), and for regularised systems the work of the internal forces (time-transformed leapfrog variable) and minus the work of the extra forces (binding energy). Evaluating it changes nothing else in the state.",
  ["inputs", "configurations"], "all states, masses, arbitrary symbolic accelerations, every chain ordering, 8 system kinds x 4 shapes of extra forces, 2-4 bodies",
  "Regularised systems with extra forces are never integrated with a non-symplectic integrator in the tests; the error appears only in the binding-energy entry.",
  SYSF[:4], [("general derivative", "src/particle-system/*.hpp: evaluate_general_derivative")],
  sysE(9, SYSALL, "nidb", ["de2"]) + sysE(9, SYSALL, "db", ["de3"]) + sysE(9, ["simple", "chain", "logh", "ttl"], "b", ["de4"], tier="thorough"),
  "2-3 bodies (4 thorough)", "more bodies", [REALS])
prop("P10", "Regularised steps keep the time transformation and its variables exact",
  "In regularised systems a drift of step h advances physical time by h divided by (binding energy + kinetic energy) or by the auxiliary function, and a kick by h divided by minus the potential energy, with positions and velocities advanced accordingly. The auxiliary function changes by exactly the work of the internal forces along the kick and the binding energy by exactly minus the work of the extra forces; plain and chain variants agree and collected increments equal the state change.",
  ["inputs", "configurations"], "all states, masses, steps, symbolic accelerations, every chain ordering, LogH/TTL/none x plain/chain x 4 shapes of extra forces, 2-3 bodies",
  "Tests integrate a few systems with loose error bounds: an inexact auxiliary variable only degrades accuracy slowly.",
  SYSF[2:4], [("time transformation", "src/particle-system/regu-system.hpp: Regularization"), ("regularised drift/kick", "src/particle-system/regu-system.hpp, archain.hpp")],
  sysE(8, ["logh", "ttl", "none", "arlogh", "arttl", "arnone"], "nb", ["dr3"]) + sysE(8, ["logh", "ttl", "none", "arlogh", "arttl", "arnone"], "nidb", ["ki2"]) + sysE(8, ["logh", "ttl"], "nid", ["ki3"], cost=10) + sysE(8, ["arlogh", "arttl"], "ni", ["ki3"], cost=8) + sysE(8, ["none", "arnone", "ttl"], "b", ["dk2"])
  + sysE(8, ["logh", "ttl", "arlogh", "arttl"], "b", ["ki3"], tier="thorough") + sysE(8, ["arlogh", "arttl"], "d", ["ki3"], tier="thorough") + sysE(8, ["logh"], "nb", ["dk2"], tier="thorough"),
  "2-3 bodies, single drift/kick and a drift-kick pair", "more bodies; rounding", [REALS, "denominators (transformed time rates) assumed non-zero"])
S = "symplectic.cpp"
prop("P11", "Symplectic integrators: advertised order, time symmetry, exact invariants",
  "Each symplectic integrator advances time by exactly the step, uses a palindromic (time-symmetric) sequence of drifts and kicks whose lengths each add up to the step, and has the order of accuracy in its name: its result agrees with the Taylor series of the true solution through that power of the step, for forces of any polynomial shape. On the real systems a step conserves total momentum and angular momentum exactly, and a step back undoes a step forward.",
  ["inputs"], "all steps, all initial states, all coefficients of a cubic force field; 2-3 gravitating bodies with any masses and states for the invariants",
  "Tests compare energy errors against loose bounds of a few orbits; a scheme of lower order than advertised (as Symplectic10th was) still passes them.",
  ["src/integrator/symplectic/symplectic-integrator.hpp"], [("composition coefficients", "src/integrator/symplectic/symplectic-integrator.hpp: Symplectic4th..10th"), ("drift/kick order", "impl_integrate in the same file")],
  [E(e, S) for e in "seq2 seqdkd seqkdk seq4 seq6 seq8 seq10 ord2 ordkdk ord4 ord6 ord10l real2dkd real3dkd".split()] + [E("ord8", S, cost=6), E("ord10", S, cost=9), E("ord10c", S, cost=130, tier="thorough")],
  "one step; orders 2, 4, 6, 8, 10 checked on one degree of freedom with force k1 x + k2 x^2 + k3 x^3 (order 10: quadratic and linear force in quick, cubic in thorough); invariants with 2-3 bodies",
  "order conditions that only show for several coupled degrees of freedom; invariants of kick-drift-kick with nested square roots; rounding", [REALS, "coefficients are decimal, so order conditions hold to 1e-13 (2nd order) .. 1e-6 (10th order, cubic force) over state and force coefficients in [-1,1]"])
R = "radau.cpp"
prop("P12", "Gauss-Radau steps integrate polynomials exactly and predict consistently",
  "The tables are those of the 7+1 point Gauss-Radau rule: nodes, Newton-to-power transformation and its inverse, predictor binomials, stage integrals. One corrector pass finds the exact coefficients of any derivative that is a polynomial of degree up to seven in time, leaves the state unchanged, and the evaluated step is its exact integral at the end and at every stage. The predictor extrapolates the polynomial to a next step of any length plus the last correction, and keeps both coefficient tables consistent; a change of the number of variables starts afresh.",
  ["inputs"], "all polynomial coefficients, states, steps and step ratios",
  "A wrong digit in one of the 28-entry tables or a wrong term in one of the seven unrolled updates only slows convergence or costs digits which the loose energy bounds of the tests forgive.",
  ["src/integrator/Gauss-Radau.hpp"], [("tables", "src/integrator/Gauss-Radau.hpp: Radau"), ("corrector", "update_b_table, correct"), ("predictor", "predict")],
  [E(e, R, cost=10) for e in "transform tables resized poly1 stages predict1 predict2s continued whole".split()] + [E("predict2c", R, cost=90, tier="thorough"), E("predict2", R, cost=90, tier="thorough"), E("predict2b", R, cost=90, tier="thorough"), E("linear", R, cost=110, tier="thorough", optional=True)],
  "derivatives of degree <= 7 in time, 1-2 variables, one to three steps; tables against independent formulas to 1e-11..1e-15", "state-dependent derivatives beyond the linear one (thorough); rounding", [REALS, "table constants are decimal: equalities hold to the stated tolerance for coefficients in [-1,1]"])
I = "iterators.cpp"
prop("P13", "Bulirsch-Stoer accepts only converged extrapolations and retries soundly",
  "Every substep sequence of a Bulirsch-Stoer step is a full leapfrog composition of equal substeps that starts from the state at the beginning of the step, each with another number of substeps. The error estimate compares the last two polynomial extrapolations in the squared substep; a step is accepted only within tolerance and then the state is exactly the beginning plus the extrapolated increment. A rejected attempt leaves no trace, is retried with a step within the limits and shorter if its errors were out of tolerance, and tables are never overrun, also for a first step. The variant for plain functions has the order of its table for linear and time-dependent equations and advances time once.",
  ["inputs", "histories"], "arbitrary increments of every sequence, arbitrary error estimates and controller answers (hence every accept/reject history), first step and next step after convergence in any column, up to two attempts",
  "Rejections, the change of the target column and the column limits depend on the history of error estimates; the tests see a handful of histories, and never the variant for functions.",
  ["src/ode-iterator/Bulirsch-Stoer.hpp"], [("extrapolation", "src/ode-iterator/Bulirsch-Stoer.hpp: extrapolate, BulirschStoerConsts"), ("accept / reject", "iterate, is_diverged_anyhow, set_next_iteration"), ("substep sequences", "integrate_by_n_steps")],
  [E(e, I, cost=20) for e in "bs_deep_dkd bs_deep_kdk bs_deeper_kdk bs1_dkd bs1_kdk bs2_k1 bs2_k3 bs2_k4 bs2_kdk".split()] + [E(e, I) for e in "bsf_1 bsf_2 bsf_3 bsf_4 bsf_retry".split()] + [E("bs1_long", I, cost=20, tier="thorough"), E("bs2_k2", I, cost=30, tier="thorough"), E("bs2_l3", I, cost=200, tier="thorough", optional=True), E("bs2_l7", I, cost=200, tier="thorough", optional=True)],
  "table depth 7 for a first step, depth 4 for a following step (thorough: 11 and 7), two state entries, at most two attempts; functions: y'=z y and polynomials in time, up to five rows", "more than two attempts; the efficiency of the choice of column; giving up by abort is accepted", [REALS, "the stand-in controller answers below 1 when the error is above 1 (P14 proves it of the real one)"])
prop("P14", "Step-size control follows its law, clamps to its limits and shrinks on error",
  "The controller returns safety factor times (target/error) to the power one over the order, with the proportional-integral form when the previous error is given, and the largest allowed growth for no error. Limits set by the user take effect; limited ratios lie between the limits, which enclose 1; more error gives a shorter step, and with every set of guards used by the iterators an error out of tolerance shortens the step.",
  ["inputs"], "all errors, safety factors, limits, coefficients; orders 0..20, 39 and 49",
  "Step control is only exercised through whole integrations in which any ratio near one works.",
  ["src/ode-iterator/step-controller/PID-controller.hpp"], [("law and limits", "src/ode-iterator/step-controller/PID-controller.hpp")],
  [E(e, I) for e in "pid pid_default pid_limits pid_contract pid_contract9".split()], "listed orders; powers are uninterpreted with their algebraic and monotonicity laws", "rounding", [REALS])
prop("P15", "Error estimates measure deviations against the mixed tolerance",
  "The root-mean-square estimate is the RMS of the deviations each divided by absolute tolerance plus relative tolerance times the larger of the two magnitudes; the worst-offender estimate is the largest such quotient; the ratio estimate is the largest deviation over the largest scale. Tolerances set are the tolerances used, and entries that are and stay exactly zero never count, also without an absolute tolerance.",
  ["inputs"], "all array entries and tolerances, every sign pattern, two entries", "Planar problems have entries that stay zero; the estimators are otherwise only used inside whole integrations.",
  ["src/ode-iterator/error-checker/RMS.hpp", "src/ode-iterator/error-checker/worst-offender.hpp", "src/ode-iterator/error-checker/max-ratio-error.hpp"], [("estimators", "src/ode-iterator/error-checker/*.hpp")],
  [E("err_rms", I, cost=8), E("err_worst", I), E("err_worst3", I, cost=8), E("err_ratio", I, cost=20), E("err_zero", I)], "scalar arrays of two entries", "arrays of vectors (the estimators do not compile for them); rounding", [REALS])
J = "iters2.cpp"
prop("P16", "Radau, sequent and constant iterators accept, retry and return the right step",
  "The Gauss-Radau (IAS15) iterator repeats the corrector only while its error decreases and is above one, then decides on the ratio of the last coefficient to the derivative over all bodies that move appreciably in the step (time counts only when regularised); an accepted state is the exact integral over the accepted step, a rejected step is retried shorter from the same state, and the next step is the limited ratio. The sequent iterator starts every refinement from the beginning of the step with equal substeps, scales the difference of the last two results by the order, stops within tolerance, and returns the finest result. The constant iterator does one integration of the given step.",
  ["inputs", "histories"], "arbitrary corrector errors (every convergence history of up to five passes), rejected and accepted steps, arbitrary derivatives, positions and velocities for the mask; arbitrary results and error estimates of every refinement",
  "Retries and masked bodies never occur in the tests' short smooth orbits.",
  ["src/ode-iterator/IAS15.hpp", "src/ode-iterator/sequent-iterator.hpp", "src/ode-iterator/const-iterator.hpp"], [("convergence window and step error", "src/ode-iterator/IAS15.hpp"), ("refinement", "src/ode-iterator/sequent-iterator.hpp")],
  [E(e, J) for e in "ias_fast ias_slow ias_fast_aux ias_slow_aux ias_converge ias_mask ias_time sequent constant".split()], "two bodies, derivatives w0 + w7 t^7 independent of the state, one rejection, all ten refinements", "the abort after 30 non-converging passes; derivatives that depend on the state (P12)", [REALS, "corrector errors below 1e6"])
L = "simul.cpp"
prop("P17", "A run goes to its end time, never past it, and calls everything in order",
  "Simulator::run returns only when the time is within the relative time tolerance of the end time or a stop condition holds; it never starts a step once that is so. Every step leads towards the end time with the size last proposed, or is shortened to end there. Start operations come once first, operations before every step (told the step that follows) and once after the last, stop operations once last, each in the order of registration; every step is one iteration between pre- and post-processing. Tolerances reach the iterator, a zero step becomes a tenth of the free-fall time in transformed units, and a run without any stop condition is refused.",
  ["inputs", "histories"], "arbitrary times, step scales and proposed steps (of either sign) after every step, end times of either sign, tolerances, the step at which any of two stop conditions fires",
  "Overshooting steps, end times before the start, and stop conditions which fire together with the end depend on histories of steps which the tests do not produce.",
  ["src/simulator.hpp"], [("run loop", "src/simulator.hpp: Simulator::run"), ("callbacks", "src/simulator.hpp: RunArgs")],
  [E(e, L, cost=8) for e in "run_end run_end_regu run_end_sym run_cond run_cond_only run_default run_default_regu run_refused".split()], "at most 3 steps (2 with stop conditions or a symbolic end time), two callbacks of each kind; stand-in particle system and iterator", "end time exactly zero (the relative tolerance is then void); rounding", [REALS])
B = "callb.cpp"
prop("P18", "Callback slices fire exactly when a slice is due",
  "An operation wrapped into a time slice runs at a call exactly if the time is not past the end and has reached start + k (end - start)/n, k counting the previous runs; in a logarithmic slice exactly if it has reached the next of the times start + (end - start)^(k/n), slice times passed over at once count once; in a step slice at every n-th call beginning with the first. The wrapped operation gets the system and step unchanged and its answer is handed on (false when not run). Resetting the parameters acts like a new slice; no call hangs.",
  ["inputs", "histories"], "all starts, ends, every sequence of call times (monotone or not), answers, step sizes; n = 1..3, step intervals 1..3 and the defaults",
  "Slices are only used by tests to thin out output which nobody reads.",
  ["src/args-callback/callbacks.hpp"], [("slices", "src/args-callback/callbacks.hpp: TimeSlice, LogTimeSlice, StepSlice")],
  [E(e, B) for e in "time_void time_bool time_reset log_void log_bool log_reset log_unit step_void step_bool".split()], "up to 3 calls of a time slice, 3 of a logarithmic one (span 16 or 81 in 4 slices), 5 + 4 of a step slice", "stream output of the writers; rounding", [REALS])
prop("P19", "A collision is reported exactly when two bodies touch",
  "The sticky-collision stop condition answers true if and only if some pair of bodies of the system is no further apart than the sum of their radii; it can be used with every particle system that has radii and changes nothing.",
  ["inputs"], "all positions and radii, 2-4 bodies, plain and chain systems", "Never used by the tests (it did not even compile).",
  ["src/args-callback/collision.hpp"], [("detection", "src/args-callback/collision.hpp")],
  [E(e, B) for e in "collide2 collide3 collide4 collide_chain".split()], "2 bodies anywhere, 3-4 bodies each on one of the coordinate axes", "rounding", [REALS])
K = "kepler.cpp"
prop("P20", "Kepler elements and coordinates are converted into each other faithfully",
  "Converting elements to coordinates gives the position and velocity of the conic section of those elements: distance p/(1+e cos nu), the orbital plane given by inclination and node, the periapsis direction, and energy and angular momentum of two-body motion; both forms agree. Converting coordinates to elements recovers the elements of every state with angular momentum: e, p, type, plane, node, argument of periapsis and true anomaly, and for circles and orbits in the reference plane, where single angles are undefined, the direction they describe together.",
  ["inputs"], "all masses, elements, angles and hence all relative states: elliptic, circular, parabolic, hyperbolic; inclined, in the reference plane, retrograde",
  "The degenerate cases (circle, parabola, orbit in the reference plane) were wrong and are measure-zero for sampled tests; signs of angles depend on quadrants.",
  ["src/orbits/orbits.hpp"], [("elements to coordinates", "src/orbits/orbits.hpp: orbit_to_coord, euler_rotate"), ("coordinates to elements", "src/orbits/orbits.hpp: coord_to_orbit")],
  [E(e, K) for e in "coord_ellipse coord_hyperbola coord_parabola coord_circle from_circle from_circle_planar from_circle_retrograde from_planar from_retrograde rotate".split()] + [E("from_general", K, cost=12), E("from_parabola", K, cost=6)],
  "one pair of bodies; angles as arbitrary points of the unit circle with their quadrant facts", "radial orbits (no angular momentum); rounding (for instance nearly circular orbits, whose angles are ill-conditioned)", [REALS])
prop("P21", "Anomalies, Kepler's equation, times and orbital constants obey two-body motion",
  "True, eccentric (hyperbolic, parabolic) and mean anomaly are converted by the geometry of the conic and back without loss; Kepler's equation is solved to machine precision for any mean anomaly, also beyond one revolution and on unbound orbits. The time to periapsis grows with true anomaly by the area law from zero at periapsis, positive before periapsis on unbound orbits, and agrees for a pair given by coordinates. Semi-major axis, eccentricity, periapsis vector, angular momentum and period follow from the state by the integrals of motion; hyperbolic orbits from velocity at infinity and impact parameter have that energy and angular momentum.",
  ["inputs"], "all masses, eccentricities, anomalies on each side of periapsis; all relative states; arbitrary roots of Kepler's equation",
  "Mean anomalies outside the fixed search interval silently gave -pi; the signs and cases per orbit type are otherwise tested at one or two numbers.",
  ["src/orbits/orbits.hpp", "src/orbits/particle-manip.hpp", "src/math.hpp"], [("anomalies", "src/orbits/orbits.hpp: *_anomaly_to_*_anomaly"), ("Kepler's equation", "M_anomaly_to_E_anomaly, src/math.hpp: root_bisection"), ("times, constants", "time_to_periapsis, period, calc_*"), ("Hyperbolic, Elliptic", "constructors in orbits.hpp")],
  [E(e, K) for e in "anom_ellipse anom_hyperbola anom_parabola area_ellipse area_hyperbola area_parabola pair_ellipse pair_hyperbola pair_parabola periods hyperbolic hyperbolic_inside".split()] + [E("visviva", K, cost=8), E("kepler_ellipse", K, cost=12), E("kepler_hyperbola", K, cost=20), E("kepler_parabola", K, cost=5)],
  "Kepler's equation: bisection with a machine epsilon of 1/4, roots 0.5 < |E| < 8, 1/4 < |M| < 8 (hyperbola: e = 9/8 and 3); everything else unbounded", "circles in pair times; e within an epsilon of 1; rounding", [REALS, "sine (hyperbolic sine) in Kepler's equation are arbitrary functions with slope of e sin below 1 (of e sinh above 1)"])
N = "manip.cpp"
prop("P22", "Masses, centres, energies, sizes and tides of groups of particles are right",
  "For a particle, a list of particles or a container, total mass, centre of mass, its velocity, kinetic, potential, total and inner energy, reduced mass and largest separation are those of the definitions, and all call forms agree. Moving a group displaces every member by the same amount so that its centre ends exactly at the requested position and velocity (or on the given orbit, or at rest in the origin), and changes nothing else. Orbital elements, period, tidal factor, tidal energy and tidal radius of two groups are those of two points with their masses and centres.",
  ["inputs"], "all masses, positions, velocities of 1-4 particles, all targets", "Weights and forms (one, several, container) are only touched on symmetric examples, or not at all (tidal_factor of two clusters used the first one twice, E_tid did not compile).",
  ["src/orbits/particle-manip.hpp", "src/orbits/orbits.hpp"], [("sums", "src/orbits/particle-manip.hpp: M_tot, COM_*, E_*"), ("moving", "move_particles*, move_to_COM_frame"), ("pairs of clusters", "calc_*, period, tidal_*")],
  [E(e, N) for e in "basics1 basics2 basics3 basics4 grouping moving1 moving2 moving3 orbiting size2 size3 size3e size4 size_body tidal tidal_distance".split()] + [E("relative", N, cost=8)],
  "1-4 particles; sizes of 3-4 particles on coordinate axes; two-body clusters with masses 1:3 for pairs of clusters", "rounding", [REALS])
S = "scatter.cpp"
prop("P23", "Random draws stay within their limits and law; scatterings start as asked",
  "Uniform, logarithmic, power-law, normal, truncated normal, Maxwellian and truncated Maxwellian draws are the values of that distribution at the quantiles drawn, never outside the limits asked for, whatever the standard generator returns; truncation discards exactly the draws outside. A random parameter is such a draw within the limits that were set, and only those. The critical velocity makes the total energy of an encounter zero, the largest impact parameter leads to the given closest approach, and an incident orbit has an impact parameter uniform over the disk, the velocity at infinity and the starting distance asked for, incoming.",
  ["inputs"], "every sequence of up to six draws, all limits, scales, masses, velocities and radii", "Tests of random draws look at nothing but averages, if at all; power-law exponents below -1 drew with reversed limits.",
  ["src/rand-generator.hpp", "src/scattering/cross-section.hpp"], [("draws", "src/rand-generator.hpp"), ("scattering set-up", "src/scattering/cross-section.hpp: critical_vel, b_max, incident_orbit, hard_radius")],
  [E(e, S) for e in "draw_uniform draw_log draw_power2 draw_power0 draw_powerm2 draw_powerm3 draw_powerm1 draw_normal draw_trunc draw_maxwell draw_tmaxwell draw_polar param_free param_min param_max param_both critical impact incident incident_single incident_pairs".split()],
  "at most six draws; exponents -3, -2, -1, 0, 2; distributions of the standard library are stand-ins which return any value of their range", "quality and seeding of the generator; rounding", [REALS])
Y = "threads.cpp"
SCHED = "threads are interleaved at lock, unlock, wait, notify, start, join and stream operations (code between these points runs undisturbed)"
prop("P24", "Thread helpers run every part once; shared files are never used by two threads",
  "Splitting items over threads hands every item to exactly one thread, for any number of items and threads. Running a job on several threads runs it once per thread (with every index once) with intact copies of the job and its arguments, also when they are temporaries. All work is finished when such a call returns. A file shared by threads is used by one thread at a time: rows are never mixed, every value is read once, and the result of a read says whether a value was read.",
  ["schedules", "inputs"], "every interleaving with up to two preemptions (three for files), any number of items up to 2^40, 1-6 threads, all argument values", "Tests run whatever schedule happens and do not use these helpers at all.",
  ["src/multi-thread/multi-thread.hpp"], [("splitting", "multi_threads_loop"), ("one job, many threads", "multi_thread, indexed_multi_thread, auto_*"), ("shared file", "ConcurrentFile")],
  [E(e, Y, cost=4) for e in "thr_loop thr_loop_empty thr_loop_wide thr_multi_lvalue thr_multi_rvalue thr_indexed_lvalue thr_indexed_rvalue thr_auto_rvalue thr_auto_lvalue thr_file_rows thr_file_execute thr_file_flush thr_file_eof thr_file_read".split()] +
  [E(e, Y, cost=4, defs=["-DBUDGET=3"], tier="thorough") for e in "thr_loop thr_multi_rvalue thr_indexed_rvalue thr_file_rows thr_file_execute thr_file_read".split()],
  "1-3 threads with 2 preemptions (thorough: 3), 4-6 threads without preemption besides blocking; two threads and up to three rows per file", "more preemptions; what the operating system does with threads and files; memory models weaker than interleaving", [SCHED, "stand-ins for std::thread, std::mutex and std::fstream with the semantics of the standard"])
Z = "conc.cpp"
prop("P25", "Queues, pipes and the thread pool lose nothing and never hang",
  "Every element put into a concurrent queue is delivered exactly once and in order; a consumer waits while the queue is empty and returns without an element once it is stopped, whenever that happens. Everything written to an output pipe is in its file, in order, when the pipe is gone; an input pipe delivers exactly the values of its file, in order, and then reports the end. Every task given to the thread pool runs once and its future holds its result. Dropping a pipe or pool always ends its threads.",
  ["schedules", "inputs"], "every interleaving with up to two preemptions, one spurious wake-up, any values, 0-3 elements (input pipes also 99-102), 1-2 workers, queues used by up to four threads", "Lost wake-ups and reads of flags before their initialisation need one particular interleaving; no test uses these classes (some did not compile).",
  ["src/multi-thread/concurrent-queue.h", "src/multi-thread/ciostream.hpp", "src/multi-thread/thread_pool.h"], [("queue", "ConcurrentDeque"), ("pipes", "Opip, Ipip, Costream"), ("pool", "ThreadPool")],
  [E(e, Z, cost=3) for e in "que_fifo que_fifo_back que_stop que_sequential pipe_out pipe_costream pipe_out_shared pipe_in pipe_in_long pipe_in_drop pool_two_users".split()] + [E(e, Z, cost=10) for e in "que_shared pool_commit pool_drop pipe_in_shared".split()] +
  [E(e, Z, cost=20, defs=["-DBUDGET=3"], tier="thorough") for e in "que_fifo que_fifo_back que_stop que_shared pipe_out pipe_out_shared pipe_in pipe_in_shared pool_commit pool_drop pool_two_users".split()],
  "see quantifier; two preemptions (one for shared input pipes; thorough: one more)", "more preemptions; files that cannot be opened or parsed; more than 1000 waiting tasks; memory models weaker than interleaving", [SCHED, "stand-ins for std::thread, std::mutex, std::condition_variable, std::fstream, std::future and std::packaged_task with the semantics of the standard"])

KH = "kahan.cpp"
SM = ["--fp", "3,5", "--qtime", "100"]
SM2 = ["--fp", "4,5", "--qtime", "300"]
FL = ["--fp", "8,24", "--qtime", "100"]
d3 = ["-DFE=3", "-DFS=5", "-DLIM=2"]
d4 = ["-DFE=4", "-DFS=5", "-DLIM=16"]
d8 = ["-DFE=8", "-DFS=24", "-DLIM=1024"]
KX = [f"{k}_{o}_exact" for k in ("kahan", "neumaier", "klein") for o in ("add", "sub")] + ["klein_add_inner", "klein_sub_inner"]
KS = [f"{k}_{o}_state" for k in ("kahan", "neumaier", "klein") for o in ("add", "sub")]
prop("P26", "Compensated numbers keep exactly what rounding takes away",
  "Adding or subtracting a number gives a Kahan, Neumaier or Klein number whose value is the rounded sum and whose error term is exactly what rounding took (for Kahan when the increment is not bigger than the value, for Neumaier and Klein always); errors kept so far correct the next increment, and Klein keeps exactly what rounding the corrected increment took. Operands are left alone; copies, assignment, scaling, negation and conversion act on the value; a plain number assigned or read in has no error.",
  ["inputs"], "all values, increments and errors of an IEEE format, rounding included", "The one test adds a few numbers; a wrong branch of the comparison of magnitudes only shows for increments bigger than the value, in the last digits.",
  ["src/kahan-number.hpp"], [("compensated addition", "src/kahan-number.hpp: operator+=, operator-= of Kahan, Neumaier, Klein")],
  [E(e, KH, flags=SM, defs=d3, cost=8) for e in KX] + [E(e, KH, flags=FL, defs=d8, cost=10) for e in KS] +
  [E(f"{k}_values", KH) for k in ("kahan", "neumaier", "klein")] + [E("text_kahan", "text.cpp")] +
  [E(e, KH, flags=SM2, defs=d4, cost=40, tier="thorough") for e in KX],
  "exactness: every number of an IEEE format with 3 exponent and 5 significant bits up to 2 in size (thorough: 4 and 5 bits, up to 16); use of the errors kept so far: single precision, up to 1024 in size; further operations: exact reals", "exactness in single and double precision (the solver does not answer in time; the code is the same template); overflow; products and quotients keep the error term unscaled",
  ["the templates are instantiated with float, encoded as an IEEE format of the stated size, rounding to nearest"])
X = "text.cpp"
kinds = "point size drag tide".split()
prop("P27", "Particle containers keep all their arrays in step",
  "A particle container made from, appended to, shortened, cleared, copied, moved or written through its accessors holds exactly the list of particles it stands for: every array (mass, position, velocity, number, radius, drag and tide data) has one entry per particle, entries belong together, particles are numbered in order, the time is kept, and handing the particles back gives the same list. A copy is independent of its original.",
  ["histories", "inputs"], "every history of up to two operations (thorough: three) from up to three particles, all data; growth to 19 particles", "The tests check a container after one operation each; an array missed in one operation shows only later.",
  ["src/particles/point-particles.hpp", "src/particles/finite-size.hpp", "src/particles/drag-particles.hpp", "src/particles/tide-particles.hpp"], [("containers", "src/particles/*.hpp: emplace_back, reserve, clear, resize, to_AoS, constructors")],
  [E(f"cont_{k}", X, cost=3) for k in kinds] + [E(f"many_{k}", X) for k in kinds] + [E(f"cont3_{k}", X, cost=20, tier="thorough") for k in kinds],
  "up to three particles and two operations (thorough: three), and one history with 19 particles", "longer histories; growing by resize (new entries have no defined value)", [REALS])
prop("P28", "Output has its documented columns, one row per particle, nothing lost",
  "A printed container or system (whatever coordinates it keeps inside) is one row per particle with exactly the columns that column_names() announces, in that order, at the current time; a writer puts the names on top once and the rows of every call into its own file, the energy writer time and energy error since its own first call. A particle, vector or compensated number is read back in the order it is printed; the print helpers write every argument once, in order, with their separators.",
  ["inputs", "configurations"], "all particle data, 0-3 particles, six kinds of systems, 0-2 calls of a writer", "Tests write files nobody reads.",
  ["src/particles", "src/particle-system", "src/args-callback/callbacks.hpp", "src/IO.hpp", "src/vector/vector3.hpp"], [("rows", "operator<< and column_names of particles and systems"), ("writers", "DefaultWriter, EnergyErrWriter"), ("helpers", "src/IO.hpp")],
  [E(f"rows_{k}", X) for k in kinds + "simple chain regu archain simple_tide archain_drag".split()] + [E(f"single_{k}", X) for k in kinds] + [E(e, X) for e in "writer_default writer_energy writer_energies text_vec text_print text_kahan".split()],
  "0-3 particles, 3 for systems at fixed places (any masses and velocities)", "digits of the printed numbers; files that cannot be opened", [REALS, "stand-ins for std::ostream, istream and fstream that record what is written, number by number"])

VE = "vec.cpp"
prop("P29", "Vectors, arrays and numeric helpers compute by component what they say",
  "Every operator of the 3-vectors and every array helper computes, component by component and for any length including none, what its name says, also in place, with a vector combined with itself or its own components, with precise state types and as one lazy expression; products, lengths and distances are the Euclidean ones; error terms are saved, copied, loaded and cleared without touching values; flattening vectors into an array and loading them back keeps every component; min, max, range, step, sign and root helpers return what they promise.",
  ["inputs"], "all component values, lengths 0 to 3, plain, precise and mixed number types", "The tests try each vector operator on a few numbers and no array helper at all.",
  ["src/vector/vector3.hpp", "src/vector/lazy-vec3.h", "src/core-computation.hpp", "src/type-class.hpp", "src/math.hpp"], [("vectors", "src/vector/vector3.hpp"), ("array helpers", "src/core-computation.hpp, src/type-class.hpp"), ("numeric helpers", "src/math.hpp")],
  [E(e, VE) for e in "vec_plain vec_precise vec_mixed vec_largest vec_lazy arr_scalar arr_vector arr_scalar_precise arr_vector_precise arr_reduce arr_logic arr_err coords_plain coords_precise num_simple num_mixed num_bisect_up num_bisect_down num_bisect_negative num_newton".split()] + [E("vec_order", VE, cost=14)],
  "arrays of up to three entries; bisection over start intervals of eight roundings", "rounding; lazy expressions kept beyond their statement; math::max of different types (the result has the second type)", [REALS, "denominators are not zero"])
SVF = "smallvec.cpp"
prop("P30", "The array behind every particle array is a list, in its buffer or on the heap",
  "After any history of appending, inserting (one, many, a range), erasing, resizing, assigning, reserving and clearing, the small vector holds exactly the elements of a list after the same history, in order, through indices and iterators in both directions, whether they fit into its inner buffer or not; copies, moves and swaps exchange contents completely and leave vectors independent; every element is destroyed exactly once and no memory outside is touched.",
  ["histories", "inputs"], "every history of two operations from zero to four elements (inner buffer of two), plain and memory-owning elements; two vectors in every combination of buffer and heap", "No test uses this class on its own; wrong element moves at the change from buffer to heap need particular sizes.",
  ["src/small-vector.hpp"], [("small vector", "src/small-vector.hpp: SmallVector, SmallVectorImpl")],
  [E("sv_plain", SVF, defs=["-DSTEPS=2"], flags=["--paths", "400000"], cost=25), E("sv_objects", SVF, defs=["-DSTEPS=2"], flags=["--paths", "400000"], cost=28)] + [E(e, SVF) for e in "sv_two_plain sv_two_objects sv_compare".split()],
  "see quantifier; capacities up to the first two growths", "appending an element of the vector itself while it is full (not supported by this class); longer histories", [REALS])

MT = "methods.cpp"
def methods_entries():
    r = []
    for fam in (0, 1, 2, 4, 6, 8, 10):
        for prec in range(4):
            d = [f"-DFAM={fam}", f"-DPREC={prec}"]
            r += [E(e, MT, defs=d) for e in ["method_adaptive", "method_adaptive_regular"] + (["method_const", "method_const_regular"] if fam else [])]
            if fam < 2: r += [E("method_adaptive", MT, defs=d + ["-DMZ=-1"], flags=["--fp", "11,53"])]
    return r
prop("P31", "Ready-made methods are the combination their names say",
  "Each method offered by name (methods::BS, AR_BS, Chain_BS, AR_Chain, SymN, AR_SymN, Chain_SymN, AR_SymN_Chain for N=2..10, the Radau family, and their Const_ forms, each plain, _Plus, _Ext and _ExtPlus) behaves step for step as the simulator put together from the system (plain, regularised, chain, regularised chain), the integrator, the step control and the precision of its name: same variables, same force evaluations, same state, time and next step. _Ext methods keep their coordinates in extended precision; _Plus methods carry the rounding error of their coordinates along and use it in the next addition.",
  ["configurations", "inputs"], "all 208 names; two bodies; for fixed steps: any start time, position, velocity, step and any acceleration at every force evaluation (plain and chain systems), any rounding error carried over (_Plus)", "The tests run a dozen of these names and compare energy errors to loose bounds; a name tied to the wrong order, system or precision stays below them.",
  ["src/spaceHub.hpp"], [("named methods", "src/spaceHub.hpp: namespace methods")],
  methods_entries(),
  "one step, two bodies; adaptive methods and regularised systems with given numbers (no force, or given small accelerations)", "what the parts themselves do (other properties); arbitrary-precision methods (MPFR is not installed)", [REALS])
SEC = "secular.cpp"
prop("P32", "Units, stellar radii and secular time scales are physically consistent",
  "Every unit and its literals (whole and decimal) convert to code units (solar mass, astronomical unit, G = 1) by the factor its name says; derived constants agree with the units they are made of. The radius of a star of any mass is the one of its type: Schwarzschild radius of a black hole, 10 km of a neutron star, Rs (m/Ms)^(3/4) of a star, 0.01 Rs (Ms/m)^(1/3) of a white dwarf. The quadrupole Kozai-Lidov time scale of any hierarchical triple is P_in (m_in/m3) (a2 sqrt(1-e2^2)/a1)^3, from numbers and from orbits, and scales as a time when the units are changed.",
  ["inputs"], "all masses, axes and eccentricities; all decimal literals", "No test calls any of these; a wrong factor has no visible failure.",
  ["src/macros.hpp", "src/secular.hpp", "src/stellar/stellar.hpp"], [("units", "src/macros.hpp: MAKE_UNIT"), ("time scale", "src/secular.hpp: ELK_quad_timescale"), ("radii", "src/stellar/stellar.hpp: stellar_radius")],
  [E(e, SEC, flags=["--roots"]) for e in "elk_numbers elk_orbits elk_kepler_orbits elk_scaling radius_bh radius_ns radius_star radius_wd units_length units_time units_mass units_other".split()],
  "whole-number literals at four values", "GW_dadt and radial_tidal_dadt (empty bodies in the source)", [REALS, "physical constants as given in the harness, to 12 digits"])
TL = "tools.cpp"
prop("P33", "Command line, configuration files, file names, stopwatch do what they are told",
  "Every command line argument goes into its own variable, in order, whatever the others hold, and as whatever type it is asked for; a wrong number of arguments, a missing configuration file or key is an error. In a configuration file blanks, blank lines and comment lines count for nothing, the first divider separates key and value, and the last value of a key counts. Automatic file names carry prefix and time and are never given twice, in any order of requests; numbered names are prefix, number and extension. The stopwatch shows the time it was running between start and pause, over any history of calls.",
  ["histories", "inputs"], "every history of five calls of the stopwatch with any time in between; every file of one line of up to four or two lines of up to three characters (any characters); every argument text; four requests of names", "No test calls any of these.",
  ["src/tools/config-reader.hpp", "src/tools/timer.hpp", "src/tools/auto-name.hpp"], [("configuration and command line", "src/tools/config-reader.hpp"), ("stopwatch", "src/tools/timer.hpp: Timer"), ("file names", "src/tools/auto-name.hpp")],
  [E(e, TL) for e in "stopwatch names_made names_auto config_line config_other config_blanks config_number config_missing_key config_missing_file command_line command_line_blanks command_line_untyped command_line_none command_line_count".split()] + [E("config_lines", TL, cost=90, flags=["--paths", "400000"])],
  "see quantifier", "lines that are neither blank, comment nor assignment; starting a stopwatch that runs; bytes above 126; decimal fractions (read by the stand-in streams as whole numbers)", [REALS, "stand-ins for the file, string streams, clock and calendar"])
