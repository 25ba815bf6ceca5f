"""Metadata of the checks which is needed without importing jax."""

DEVICES = {"XLA_FLAGS": "--xla_force_host_platform_device_count=4"}
CPU = "single-threaded XLA CPU backend, 32 bit precision (C33: 64 bit)"
SEEDED = ("statistical limits are 6.5 standard errors or p < 1e-10, all random "
          "numbers follow from VERIF_SEED")

MODEL = "property-based testing against a reference model"
STATE = "stateful (model-based) property testing"
META = "metamorphic and differential property-based testing"
STAT = "property-based testing with reference model and statistical oracle"

SETTINGS = {
  "C01": {
    "technique": MODEL,
    "rule": "random (a, b, gamma) and (first, last, gamma), run lengths and "
            "per-chain overrides against the formula in double precision; "
            "non-trivial: at least two iterations and gamma > 0 or first > "
            "last",
    "assumptions": ["(first/last)^(1/gamma) is representable in 32 bit"],
  },
  "C02": {
    "technique": STAT,
    "rule": "random burn-in, selections, step size schedules, keys and "
            "overrides; kept iterations are counted over the complete run, "
            "inclusion frequencies are compared to the exact law of sampling "
            "without replacement; non-trivial: some but not all iterations "
            "are selected",
    "assumptions": [SEEDED, "the burn-in of the thinning agrees with that of "
                    "the scheduler"],
  },
  "C03": {
    "technique": MODEL,
    "rule": "random histories of acceptance ratios (constant, extreme, random)"
            " and constants against the dual averaging recursion in double "
            "precision; pairs of histories for monotonicity; non-trivial: "
            "at least two iterations with adaption",
  },
  "C04": {
    "technique": MODEL,
    "rule": "random subsets of parts, overrides and statistics; combined "
            "schedule compared to a model in python and the printed report to "
            "the kept iterations; non-trivial: at least one part and two "
            "iterations (report: more than one line)",
    "assumptions": ["the number of reports does not exceed the iterations"],
  },
  "C05": {
    "technique": STATE,
    "rule": "random histories of chains (mode, cache, batch, seed) and draws; "
            "every batch identified by its rows; non-trivial: a pass or a "
            "cache is crossed with several chains or batch sizes > 1",
    "assumptions": [SEEDED],
  },
  "C06": {
    "technique": MODEL,
    "rule": "random sizes, batch and cache sizes, passes, loaders and "
            "functions; results and carries compared to a loop over the data; "
            "non-trivial: several passes and more than one batch",
    "assumptions": ["no derivatives through the stateless mapper"],
  },
  "C07": {
    "technique": STATE,
    "rule": "random interleavings of draw, save, load (same, other, new "
            "loader) over several chains and modes, compared to the "
            "uninterrupted stream; also each position of a stream; "
            "non-trivial: a checkpoint is restored after further draws",
  },
  "C08": {
    "technique": STATE,
    "env": DEVICES,
    "rule": "random programs of eager, compiled, scanned and replicated "
            "requests over several loaders and chains against the stream of "
            "an independent loader; non-trivial: the cache is refilled",
    "assumptions": ["host loaders are not used within vmap (stop_vmap is a "
                    "stub)", "four simulated CPU devices"],
  },
  "C09": {
    "technique": STAT,
    "rule": "random datasets, keys and request forms; rows, alignment, "
            "reproducibility and chi-square tests of uniformity and "
            "independence; non-trivial: several rows and batches",
    "assumptions": [SEEDED],
  },
  "C10": {
    "technique": "round-trip property-based testing",
    "rule": "random pytrees of samples are written by the HDF5 collector and "
            "read by the HDF5 loader (random, ordered, sub-trees); "
            "non-trivial: more than one leaf and sample",
    "assumptions": ["keys without '/', 32 bit leaves, no empty leaves"],
  },
  "C11": {
    "technique": MODEL,
    "rule": "random tensorflow datasets (features, nesting, exclusion, "
            "shuffle buffers) whose rows are identified in each batch; "
            "non-trivial: several features and rows",
    "assumptions": ["datasets are dictionaries of known cardinality"],
  },
  "C12": {
    "technique": MODEL,
    "rule": "random array dtypes, shapes, loaders and access modes; announced "
            "formats compared to delivered batches, invalid requests have to "
            "raise before data is drawn; non-trivial: several arrays",
  },
  "C13": {
    "technique": "round-trip property-based testing",
    "rule": "random pytrees; non-trivial: nested with more than one leaf",
    "assumptions": ["keys are strings", "nodes without leaves are restored "
                    "from the target"],
  },
  "C14": {
    "technique": STATE,
    "rule": "random accept patterns, sample trees, collectors, chains and "
            "interleavings against a list of the accepted samples; "
            "non-trivial: some but not all iterations are kept",
    "assumptions": ["keys without '/'"],
  },
  "C15": {
    "technique": "schedule exploration with gated threads (stateful PBT)",
    "rule": "random collectors, chains and schedules in which the writing "
            "thread is held at generated points; non-trivial: results are "
            "requested before writing finished",
    "assumptions": ["delays are injected where a collector takes a sample, "
                    "waits below 5 s count as progress"],
  },
  "C16": {
    "technique": MODEL,
    "env": DEVICES,
    "rule": "random models with closed-form likelihoods, data, masks, "
            "temperatures and strategies against double precision; average "
            "over all batches; non-trivial: parameter-dependent likelihood",
  },
  "C17": {
    "technique": META,
    "rule": "random models, data, loaders, batch and cache sizes against the "
            "closed form and against each other; non-trivial: several passes",
    "assumptions": ["no derivatives through the stateless host mapper"],
  },
  "C18": {
    "technique": MODEL,
    "rule": "random pytrees and synthetic strategies (decorator), random "
            "gradient histories and rates per chain (RMSprop) against numpy; "
            "non-trivial: more than one leaf or step",
  },
  "C19": {
    "technique": MODEL,
    "rule": "random sample histories, burn-in lengths and initial covariances "
            "against numpy's covariance; non-trivial: burn-in is exceeded and "
            "more than one dimension",
    "assumptions": ["non-singular sample covariance"],
  },
  "C20": {
    "technique": MODEL,
    "rule": "random models, batches, step sizes and frictions against the "
            "covariance of the closed-form gradients; non-trivial: "
            "non-vanishing covariance",
    "assumptions": ["batch size of at least two", "the noise is not rescaled "
                    "by N^2/n"],
  },
  "C21": {
    "technique": STAT,
    "rule": "thousands of vectorized chains per case on problems with closed-"
            "form gradients; the noise is recovered from each step and tested "
            "to be standard normal; single chains of every data source are "
            "replayed; non-trivial: several steps and observations",
    "assumptions": [SEEDED],
  },
  "C22": {
    "technique": STAT,
    "rule": "vectorized chains; momenta are reconstructed from the recorded "
            "trajectory, the noise and energies tested against the "
            "discretization, trajectories are reversed; non-trivial: friction "
            "and several observations, the chain moved",
    "assumptions": [SEEDED],
  },
  "C23": {
    "technique": STAT,
    "rule": "as C22 for the reversible leapfrog integrator of AMAGOLD",
    "assumptions": [SEEDED],
  },
  "C24": {
    "technique": STAT,
    "rule": "as C22 for the friction leapfrog integrator with scalar, "
            "per-parameter friction, masses and noise models",
    "assumptions": [SEEDED, "friction exceeds the estimated noise"],
  },
  "C25": {
    "technique": STAT,
    "rule": "vectorized chains; every step is checked against the acceptance "
            "rule and the adopted state, the decisions against the announced "
            "probabilities, exact draws of the posterior have to stay "
            "distributed alike; diverging proposals; non-trivial: both "
            "decisions occur",
    "assumptions": [SEEDED],
  },
  "C26": {
    "technique": STAT,
    "rule": "as C25 for SGGMC at random temperatures",
    "assumptions": [SEEDED, "invariance starts from the stationary momentum"],
  },
  "C27": {
    "technique": STAT,
    "rule": "vectorized replica pairs; exchange probabilities recomputed from "
            "the reported energies and variances; non-trivial: both exchanges "
            "and non-exchanges occur",
    "assumptions": [SEEDED],
  },
  "C28": {
    "technique": META,
    "env": DEVICES,
    "rule": "random schedulers with a synthetic solver sensitive to all it is "
            "told, and all real samplers, run as chains and stepped by hand; "
            "non-trivial: some iterations are not kept or several schedules",
    "assumptions": ["host data and saving on the host only with the strategy "
                    "'map'", "tolerances of 2e-3 between compiled programs"],
  },
  "C29": {
    "technique": META,
    "quick_budget": 140.0,
    "rule": "random arguments of every ready-to-use solver, given or omitted, "
            "against the sampler composed by hand and stepped manually; non-trivial: the "
            "chain moved and at least two iterations after burn-in",
    "assumptions": ["admissible arguments: first >= last step size, "
                    "accepted samples within the run"],
  },
  "C31": {
    "technique": META,
    "rule": "random programs in a fresh process against the same programs in "
            "another process after other programs, in another order, with "
            "other hash seeds, global random numbers and directories; "
            "non-trivial: more than one result",
    "assumptions": ["same machine and versions", "shuffling by tensorflow is "
                    "not reproducible"],
  },
  "C32": {
    "technique": META,
    "rule": "random subsets of the optional packages are made unavailable, "
            "random programs against a complete installation; non-trivial: "
            "a package is missing and a program does not need it",
    "assumptions": ["haiku is not installed in this sandbox"],
  },
  "C33": {
    "technique": META,
    "env": {**DEVICES, "JAX_ENABLE_X64": "1"},
    "quick_budget": 130.0,
    "rule": "cases and oracles of the other properties with 64 bit numbers, "
            "tolerances are smaller by 1e-6; non-trivial: as stated there",
    "assumptions": ["samples and scheduled values are given in double "
                    "precision"],
  },
  "C30": {
    "technique": MODEL,
    "env": DEVICES,
    "rule": "random pytrees, dtypes, matrices, lists and identifiers against "
            "numpy on flattened vectors; non-trivial: more than one leaf and "
            "element (lists: more than one tree)",
  },
}

for _s in SETTINGS.values():
  _s.setdefault("note", "Searches generated inputs against an explicit "
                        "oracle, see DESIGN.md; no proof of absence.")
  _s.setdefault("assumptions", [])
  _s["assumptions"] = _s["assumptions"] + [CPU]
