P = "property-based testing (Hypothesis): "
N = "Generated-input search; no claim beyond the cases explored. "
LEVELS = {
"C01": (P + "write/read round trip over formats, shapes and injected write failures", N + "Extents 1-4 (up to thousands of sites per slice in 'large'), 12 builds."),
"C02": (P + "differential against independent codecs of the published formats, both directions", N + "The codecs were written from the format documents, not from the reader."),
"C03": (P + "fault injection into files, oracle computes which integrity value can see the change", N + "Bit, word, site and truncation faults."),
"C04": "fuzz",
"C05": (P + "metamorphic relation (gauge group action, invariance, covariance)", N + "Branch cuts of projections excluded by their measured gap."),
"C06": (P + "reference model of coordinates; exhaustive sites of drawn lattices", N + "All sites of small lattices, sampled sites of large ones."),
"C07": (P + "differential against dense linear algebra", N + "Tolerance is rounding times operand norms."),
"C08": (P + "defining property of each projection, optimum from the SVD", N + "Singular arguments excluded by their measured gap."),
"C09": (P + "eigen-decomposition reference and exp/log round trip", N + "One known finding (NC > 3 logarithm on eigenphase sums of 2 pi)."),
"C10": (P + "residual and spectrum oracles scaled by the conditioning", N + "Needs-pivoting, degenerate and singular matrices are generated classes."),
"C11": (P + "algebraic identities and direct contraction", N + "NC 2-5."),
"C12": (P + "brute-force reference model site by site", N + "2 to 5 dimensions."),
"C13": (P + "reference implementation of the published smearing formulas", N + "APE, stout, log; improved smearing in its own build."),
"C14": (P + "reference implementation of the nested hypercubic construction, variants compared", N + "Five dimensions sampled lightly."),
"C15": (P + "reference integrator, order of convergence, reversal, recomputed measurements", N + "Boxes up to a few hundred sites, flow times to a few units."),
"C16": (P + "gauge-orbit test by maximal-tree transport and recomputed accuracy", N + "Accuracies down to 1e-18."),
"C17": (P + "defining condition on every link and gauge-orbit test", N),
"C18": (P + "probability-integral-transform and exact-result statistics, model chain for whole runs", N + "Statistical parts at 6.5-7 standard deviations."),
"C19": (P + "stateful testing of histories against published generators, distribution tests", N + "Streams up to a few 10^6 numbers."),
"C20": (P + "generated thread schedules on an own deterministic OpenMP runtime, and real threads, against one thread", N + "Schedules interrupt at instrumented memory accesses; weak-memory effects are not modelled."),
"C21": (P + "definitions on drawn phase fields, covariance of the generated photon field", N),
"C22": (P + "path-ordered reference model, parity, instanton", N),
"C23": (P + "direct sums over an independently computed charge density", N),
"C24": (P + "direct Fourier transform and contraction, inequality of every cut", N + "Symmetric momentum lists only."),
"C25": (P + "design-order polynomials, defining equations, exact rational sums", N),
"C26": ("property-based testing (Hypothesis) against a reference reader, and coverage-guided fuzzing (libFuzzer, ASan)", N + "Duplicate tags are outside the domain."),
"C27": (P + "the program as a process against the library operation; provoked errors", N),
"C28": (P + "standard definitions, guard bytes, visiting order", N),
"C29": (P + "metamorphic relations of the lattice symmetries", N),
"C30": (P + "exact fields, seeds, Haar moments, line integral", N),
"C31": (P + "differential testing of builds, random option combinations", N + "SINGLE_PREC, BlueGene/Q and LAPACKE builds cannot be compiled here."),
"C32": (P + "model-based histories against a freshly loaded library", N + "5-14 operations, up to four fields."),
}
LEVELS["C04"] = ("coverage-guided fuzzing (libFuzzer) and structured mutation under ASan/UBSan", N + "Memory ceiling of 192 MB; time limit per file.")
NA = {}
