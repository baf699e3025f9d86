"""MANIFEST.json from properties.jsonl and the notes below."""
import json

RT = " Run-time contracts on the real code back it up (bounded, not counted as proved)."
NOTE = {
 "C01": "Every per-coordinate map, the affine part (diagonal, full covariance) and forward/inverse as compositions, for any dimension, bounds and data, in real arithmetic; exp/log/erf and Cholesky by their identities.",
 "C02": "The reported log-Jacobian equals the log of the absolute derivative of the inverse map computed by symbolic differentiation of the map's own term; chain rule and determinant rules assumed.",
 "C03": "Loop invariants for every wrapping/reflection loop, any number of points; termination shown by a decreasing distance. Real arithmetic.",
 "C04": "Acceptance/rejection as an equivalence with 'all coordinates within bounds', any array, NaN and infinities included.",
 "C05": "Sum of marginals and stacking of draws for any number of marginals given by contract.",
 "C06": "The code's acceptance factor is shown equal to the Metropolis-Hastings ratio of the target and the proposal actually drawn (tpCN, RWM; with and without flow), for one arbitrary iteration under an inductive loop invariant. tpCN with boundary conditions: 'accepted exactly with the factor' is decided only at the thorough tier, else by run-time contracts.",
 "C07": "Inductive invariant of the kernels' loops: every stored quantity of a walker is the function value at its point.",
 "C08": "Calls only where the prior is finite, and the count, as inductive invariant. Parts the solver leaves open (listed per run) are decided by run-time contracts.",
 "C09": "Equality with the mixture formula for any number of iterations and particles, by sum/log-sum-exp normal forms.",
 "C10": "Bisection by loop invariant, both metrics, dynamic or not; partial correctness (termination of the bisection not shown).",
 "C11": "Termination test and main loop by ghost state (phases, records); partial correctness.",
 "C12": "Definitions and ranges for any number of weights (Cauchy-Schwarz stated as a pointwise obligation and a sum rule).",
 "C13": "The threshold search by loop invariant with a decreasing variant; mask, renormalisation and ESS guarantee for any weights; np.percentile by contract.",
 "C14": "Both loops by invariants over prefix sums; floor/ceil counts as strict bounds on the stretches of equal indices, for any weights, size and offset in (0,1).",
 "C15": "Every field is indexed by the same index vector, any number of particles.",
 "C16": "All 24 option combinations of posterior(): every output is taken at the same indices.",
 "C17": "The evidence average and its error as sums over all draws; statistical unbiasedness follows from the contract of flow sampling (assumed).",
 "C18": "Vectorised, serial and pooled evaluation give the same values at every point; blob dtype inference by run-time contracts.",
 "C19": "Ghost-MPI invariant for map (any schedule, any number of workers and tasks) and the worker loop; close() by run-time contracts.",
 "C20": "Ghost file system: at every crash point the checkpoint on disk is the old or the new one, for every failing operation.",
 "C21": "load_state restores every attribute; warm-up resumes at the recorded batch.",
 "C22": "History operations for any number of iterations; results are recomputed from all of it (0, 1 or 2 further iterations added after a first look: the code is uniform in their number).",
 "C23": "Both generators are seeded before any draw; a scan of all modules shows no other source of randomness. End-to-end determinism by run-time contracts.",
 "C24": "Weighted mean/covariance and the data handed to the Student-t fit, any number of particles and dimension; the t fit itself by contract.",
 "C25": "Both directions, densities and samples of the wrapper and of Flow against the contract of zuko's transform; numerical accuracy of zuko's networks by run-time contracts.",
 "C26": "Splits and pairing for any number of samples; the epoch loop by inductive invariant (history, best epoch, restored parameters). Noise by run-time contracts.",
 "C27": "Warm-up loop by inductive invariant, any number of batches, with and without blobs and resumption.",
 "C28": "Constructor options and derived numbers; flow names by run-time contracts.",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                            technique="contract-based deductive verification: VCs generated from the real source by pyvc, discharged by z3/cvc5/rational normal forms",
                            level="proof", level_note=NOTE[i] + RT))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
