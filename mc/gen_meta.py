"""Writes mc/meta.json (environments, bounds, assumptions per property) and MANIFEST.json from one table.
Only properties whose check module exists are claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT = ["numpy", "torch"]
ALL = ["numpy", "torch", "numpy32", "torch32"]
COMMON = ["the reference definitions in mc/ref.py (plain loops in float64) are the documented ones",
          "floating point results are compared within tolerances that scale with the configured precision"]
SEAM = "scipy's minimizer, bayes_opt's optimizer and numpy's random source are replaced by scripted answers; their real behaviour is any such answer"
T = "exhaustive bounded enumeration of executions of the real code against a reference model"
TS = "explicit-state exploration of operation sequences on the real code with a reference state model"
TA = "exhaustive enumeration of environment answers (optimizer / random source) against a reference model"
TM = "stateless model checking of the real MPI code: all schedules of virtual ranks under a controlled scheduler"
# id: (envs, technique, bounds, extra assumptions)
INFO = {
 "C01": (ALL, T, "all index/neighbor arrays over tiny training sets, a ladder of batch, neighbor, feature and response sizes with coinciding counts, memory layouts and dtypes", []),
 "C02": (ALL, T, "every kernel/smoothness/metric/deformation x parameter status x subset and order of overriding keywords x value grids, up to 13 anisotropic dimensions", []),
 "C03": (ALL, T, "12 model specifications x size ladders up to 2049 queries, 128 neighbors, 32 responses; all batch subsets/orders, neighbor orders and response subsets of problems up to 4 queries x 4 neighbors", []),
 "C04": (NT, TS, "all sequences of 14 operation kinds on one or two live models up to depth 3 (quick) / 4 (thorough), every model compared with one rebuilt from the reference state after each step", [SEAM]),
 "C05": (ALL, T, "grids of values, bounds and prompts (legal and illegal) for every hyperparameter class, random source answers 0, extremes and interior", [SEAM]),
 "C06": (["numpy"], TA, "every combination of grid answers (below, at, inside, at, above the bounds) per free parameter, for both optimizers, 1-4 free parameters, all options", [SEAM]),
 "C07": (ALL, TS, "13 kernels x 4 noises x 6 losses x 7 scale methods x sequences of parameter points (partial and full assignments, all keyword orders), and size ladders to 257 x 3 and 100 x 50", [SEAM]),
 "C08": (ALL, T, "every assignment of a small value grid for up to 3 points/2 responses, all batch permutations and splits, size ladder", []),
 "C09": (NT, TA, "every sub-neighborhood the random source can draw for small neighborhoods, every iteration count up to 4, size ladders", [SEAM]),
 "C10": (["numpy"], T, "all integer point configurations up to 5 points in 1-D and 4 in 2-D x all neighbor counts x all query points x all algorithms, plus batch splits/orders and the approximate index on small sets", ["the approximate index searches sets of at most 12 distinct points exhaustively"]),
 "C11": (["numpy"], TA, "all label sets up to 6 points and 3 classes x all batch counts x all answers of the random source", [SEAM]),
 "C12": (NT, T, "all query/training configurations on small grids, specifications x size ladders with coinciding counts", []),
 "C13": (NT, TS, "all sequences of multivariate operations up to depth 3 x response counts 1-5 x specifications, each compared with independent univariate models", [SEAM]),
 "C14": (["numpy", "mpireal"], TM, "1-4 ranks, every batch size up to 9, every schedule of the virtual ranks (stateful search), eager and rendezvous sends", ["virtual communicator semantics follow the MPI standard: point-to-point order per pair, collectives matched in order per communicator"]),
 "C15": (["numpy", "mpireal"], TM, "1-4 ranks with independent random sources, every optimizer/scale/sampling operation and sequence of up to 2, every schedule (stateful search)", ["virtual communicator semantics follow the MPI standard"]),
 "C16": (["torch"], T, "the explorations of C01, C02, C03, C05, C07, C08, C09, C12, C13 and C20 rerun on the torch backend against the same reference", []),
 "C17": (["torch", "torch32"], TS, "all sequences of forward, parameter change, optimizer step and neighborhood refresh up to depth 3 (quick) / 4 for each layer and kernel; gradients against central differences", []),
 "C18": (["numpy"], TA, "specifications x optimizer answers x draws x data shapes; every single-target perturbation on small sets", [SEAM]),
 "C19": (["numpy"], TA, "all labelings of small point sets, 2-4 classes, specifications x optimizer answers x draws, every mask outcome", [SEAM]),
 "C20": (ALL, T, "every noise model x value grid x tensor shapes (coinciding counts included), single use of noise in every model operation", []),
 "C21": (NT, T, "knot counts 1-6 x feature dims x batch sizes x fixed/free/overridden knots in every subset", []),
 "C22": (NT, T, "all displacements of a grid x length scales x batch/neighbor ladders, symmetry and block kriging", []),
 "C23": (NT, TS, "every public operation with fingerprinted arguments, repeated, interleaved in all ordered pairs, and repeated after every argument array was rewritten in place in four ways", [SEAM]),
 "C24": (["numpy"], T, "every single-target perturbation of small training sets, with coinciding points, for every loss and scale", [SEAM]),
 "C25": (["bare", "numpy32", "torch32"], T, "every backend x precision x selection route in fresh processes, plus the explorations of C01-C03, C08, C20 in single precision", []),
 "C28": (NT, TS, "every ordered pair of about 110 model specifications (kernel, smoothness, metric, deformation, length scales, noise, scale), before and after copying, training and equalizing; every pair of live models along all operation sequences up to depth 2 (quick) / 3 and along one sequence containing every pair (triple) of operations", [SEAM]),
 "C29": (NT, TS, "every public operation from four seeds of the random source, twice, and after every other operation (all ordered pairs) with the other random sources scrambled; process-wide settings compared around every operation and around the import of every module", ["third-party optimizers and samplers are deterministic functions of the random state they are given"]),
 "C30": (NT, "exhaustive crash-point exploration of the real code, with fault injection at every seam", "every public operation interrupted before every line of library code it executes (up to 250 points each, evenly spaced beyond; thorough: 4000); every setter with every illegal value; every refused set_params over all subsets and orders; every failing scale training, multivariate training and optimization", ["an interruption falls between two lines of library code"]),
 "C31": (NT, "exhaustive exploration of interleavings of the real code under a controlled scheduler (preemption bound 2)", "every public operation preempted before every line of library code it executes (up to 120 points each, evenly spaced beyond; thorough: 2000) by the same operation on other data and by every other operation; two-preemption schedules of two threads (60 x 4 switch points each; thorough: 400 x 400)", ["preemption falls between two lines of library code; C extensions are atomic"]),
 "C26": (["numpy"], TA, "1-3 epochs x keep-state x probe-previous x scripted optimizer answers and batch draws", [SEAM]),
}
NA = {"C27": "JAX (and its dependency tensorflow_probability) is not installed in this sandbox and cannot be fetched, so its code cannot be executed and no execution can be enumerated"}
LV = {"C05": "model_checking"}
meta, checks, na = {}, [], []
for p, (envs, tech, bounds, extra) in INFO.items():
    meta[p] = dict(envs=envs, level="model_checking", bounds=bounds, assumptions=COMMON + extra)
    if os.path.exists(os.path.join(ROOT, "mc", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough", technique=tech, level="model_checking",
                           level_note=f"Holds on every execution explored: {bounds}. Trusts: " + "; ".join(COMMON + extra) + ". Nothing beyond the bounds is claimed."))
    else:
        na.append(dict(property=p, reason="check not built yet"))
for p, r in NA.items():
    na.append(dict(property=p, reason=r))
json.dump(meta, open(os.path.join(ROOT, "mc", "meta.json"), "w"), indent=1)
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks in /repo: checks drive the public API and replace third-party seams (scipy minimize, bayes_opt, numpy.random, mpi4py) from outside. "
                 "Genuine defects repaired in /repo ('fix:' commits) and recorded ones are in known_findings.jsonl; the design is in DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
