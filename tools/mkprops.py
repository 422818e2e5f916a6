#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NOIO = "The unit tests contain no I/O at all: no file is ever written or read by them; only generated fields, geometries and storages reach the byte layout."

prop("C01", "Every configuration format round-trips the gauge field",
 "Writing an SU(N) lattice configuration in any supported storage format and reading it back with the matching header type yields the same links at the same sites and directions, up to the precision of the format. The header information that the reader recovers (dimensions, plaquette, trace, checksum) agrees with the lattice that was written. Existing files are not overwritten, and a write that cannot be completed, or a format that cannot hold the field, is reported as a failure.",
 ["inputs", "configurations"], "all SU(N) fields, all lattice geometries with unequal extents, all formats (NERSC compressed / full / NxN, HiRep, MILC, SciDAC, ILDG, CERN) and all gauge groups/dimensions the format supports",
 NOIO, ["src/IO/writers.c","src/IO/readers.c","src/IO/write_headers.c","src/IO/read_headers.c","src/IO/HIREP.c","src/IO/CERN.c","src/IO/Scidac.c","src/IO/XML_info.c"],
 [("configuration writer","src/IO/writers.c"),("configuration reader","src/IO/readers.c"),("header parsing","src/IO/read_headers.c"),("HiRep/CERN layouts","src/IO/HIREP.c, src/IO/CERN.c")],
 observe=["read_file","write_configuration"])
prop("C02", "Files conform to the published formats in both directions",
 "Files produced by the library decode, with an independent codec of the published NERSC, MILC, SciDAC/ILDG (LIME), HiRep and CERN layouts, to the field that was stored, including header values, checksums, record lengths and byte order. Files produced by an independent encoder in any layout, precision and byte order the reader claims to support are read as the field they encode.",
 ["inputs", "configurations"], "all fields, geometries, single and double precision, big and little endian, all supported formats",
 NOIO + " A symmetric bug in writer and reader is invisible even to a round trip, only an independent codec can see it.",
 ["src/IO/writers.c","src/IO/readers.c","src/IO/write_headers.c","src/IO/read_headers.c","src/IO/Scidac.c","src/IO/XML_info.c","src/IO/crc.c","src/IO/chklat_stuff.c"],
 [("header writers","src/IO/write_headers.c"),("LIME records","src/IO/Scidac.c"),("site ordering","src/IO/readers.c")])
prop("C03", "Corrupted or truncated configurations are rejected or reported",
 "When the payload of a configuration file, or its recorded checksum, plaquette or trace, is altered by any amount the format's integrity data can see, reading does not silently succeed: MILC, SciDAC/ILDG and BQCD files with a wrong checksum, and BQCD, HiRep and CERN files with a wrong plaquette, are refused; for NERSC files each of the checksum, plaquette and trace that disagrees is reported and the file is refused when all three do. A file cut short at any point is reported as a failure rather than as a successfully read field, and so is a file whose header is incomplete or states another number of colours or dimensions, or a storage order, data type or precision that the reader does not know.",
 ["inputs", "fault_sequences"], "all positions of payload corruption, all truncation points, all altered integrity values, in every format carrying integrity data",
 NOIO, ["src/IO/read_config.c","src/IO/readers.c","src/IO/HIREP.c","src/IO/CERN.c","src/IO/crc.c"],
 [("read verification","src/IO/read_config.c"),("checksums","src/IO/crc.c, src/IO/readers.c")])
prop("C04", "Malformed configuration files never crash the reader",
 "For arbitrary byte content presented as a configuration file of any header type, reading terminates and either succeeds or reports failure. It never accesses memory out of bounds, dereferences null, loops forever or terminates the process.",
 ["inputs"], "all byte strings, in particular structured mutations of valid headers, for all header types",
 NOIO, ["src/IO/read_headers.c","src/IO/chklat_stuff.c","src/IO/Scidac.c","src/IO/XML_info.c","src/IO/CERN.c","src/IO/HIREP.c","src/IO/read_config.c","src/IO/readers.c"],
 [("NERSC header tokenizer","src/IO/chklat_stuff.c"),("LIME record walk","src/IO/Scidac.c"),("XML tag parse","src/IO/XML_info.c")])
prop("C05", "Gauge transformations act correctly and leave observables invariant",
 "A gauge transformation replaces every link by g(x) U g(x+mu)^dagger, on the whole lattice or on a time slice. All gauge-invariant observables (plaquettes, Polyakov loops, topological charge, action, flow observables) are unchanged by it, and every smearing commutes with it.",
 ["inputs", "configurations"], "all SU(N) fields and transformation fields, all geometries, gauge groups and dimensions",
 "The tests apply one transformation to one fixed field and compare a single plaquette with an earlier value.",
 ["src/Gfix/gtrans.c","src/Field/plaqs_links.c","src/Field/POLY.c","src/Field/clover.c","src/Smear/smear.c"],
 [("gauge transformation","src/Gfix/gtrans.c"),("observables","src/Field")])
prop("C06", "Lattice geometry maps are consistent bijections",
 "For any dimensions the linear site index and the coordinate maps are mutually inverse bijections in lexicographic order, forward and backward neighbours are inverse periodic unit steps, sub-volume indices are consistent, and momentum/centred-coordinate maps enumerate each mode once with the stated sign and centring conventions. The checkerboard decomposition covers every site exactly once and two neighbouring sites never share a colour.",
 ["inputs", "configurations"], "all lattice dimensions (odd, even, unequal, extent 1 upward) and numbers of dimensions",
 "The tests look at one fixed cubic geometry.",
 ["src/Geometry/geometry.c","src/Geometry/init.c","src/Geometry/draughtboard.c"],
 [("index maps","src/Geometry/geometry.c"),("navigation set-up","src/Geometry/init.c"),("colouring","src/Geometry/draughtboard.c")])
prop("C07", "Matrix kernels equal dense linear algebra",
 "Every matrix product variant (plain and with either or both operands daggered, in general, special-unitary and in-place forms), sum, difference, scaled addition, trace, trace of products, determinant, outer product, transpose/adjoint and norm equals the mathematical definition to rounding for all admissible inputs. Results do not depend on which specialised kernel is chosen.",
 ["inputs", "configurations"], "all complex N x N matrices (SU(N) where the kernel requires it), all N, vectorised and scalar builds",
 "The tests evaluate each kernel on one or two hand-made matrices (identity, a constant) where many index or sign errors cancel.",
 ["src/Matrix_Ops/MMUL","src/Matrix_Ops/U_Nops.c","src/Matrix_Ops/trace_abc.c","src/Matrix_Ops/trace_abc_SSE.c","src/Headers"],
 [("products","src/Matrix_Ops/MMUL"),("dense helpers","src/Matrix_Ops/U_Nops.c"),("traces","src/Matrix_Ops/trace_abc.c")])
prop("C08", "Reunitarisation projects onto SU(N)",
 "Every reunitarisation maps any invertible matrix to a unitary matrix with unit determinant, leaves SU(N) matrices unchanged, and realises its defining projection: Gram-Schmidt (of rows or of columns, depending on the routine), or the SU(N) element maximising the real trace overlap.",
 ["inputs", "configurations"], "all non-singular matrices, including badly scaled and nearly unitary ones, all N",
 "Tests reunitarise one near-unitary matrix and only look at unitarity.",
 ["src/Matrix_Ops/gramschmidt.c","src/Matrix_Ops/gramschmidt_SSE.c","src/Matrix_Ops/givens.c","src/Smear/projectors.c"],
 [("Gram-Schmidt","src/Matrix_Ops/gramschmidt.c, gramschmidt_SSE.c"),("trace maximisation","src/Matrix_Ops/givens.c")])
prop("C09", "Matrix exponential, logarithm and Lie-algebra projections are correct",
 "The exponential of any traceless hermitian matrix is the true exponential and lies in SU(N); each exact logarithm returns a traceless hermitian matrix whose exponential is the original link; the hermitian/antihermitian projections are the traceless projections of their definition, and the packed forms agree with the full forms. This includes the neighbourhood of the identity and degenerate or nearly degenerate eigenvalues.",
 ["inputs", "configurations"], "all hermitian traceless matrices of any norm, all SU(N) matrices away from the branch cut, all N",
 "Tests exponentiate one generic matrix; small-angle and degenerate branches are never entered.",
 ["src/Matrix_Ops/expMat.c","src/Matrix_Ops/exactQ.c","src/Matrix_Ops/effs.c","src/Matrix_Ops/taylor_logs.c","src/Matrix_Ops/lie_mats.c"],
 [("exponential","src/Matrix_Ops/expMat.c"),("logarithm","src/Matrix_Ops/exactQ.c"),("series logarithm","src/Matrix_Ops/taylor_logs.c")])
prop("C10", "Linear solvers, inverses, determinants and eigenvalues are correct",
 "The inverse, determinant, LU decomposition, Newton-refined inverse and linear solves satisfy their defining equation with a residual of the order of rounding times the conditioning for every non-singular matrix, including those that need pivoting. Eigenvalue routines return the complete spectrum of their argument.",
 ["inputs", "configurations"], "all non-singular matrices with any pivot pattern, all unitary and hermitian matrices including degenerate spectra, all N",
 "Tests invert one matrix with a benign pivot order.",
 ["src/Matrix_Ops/invert.c","src/Matrix_Ops/invert_SSE.c","src/Matrix_Ops/LU.c","src/Matrix_Ops/LU_SSE.c","src/Matrix_Ops/evalues.c","src/Matrix_Ops/vandermonde.c"],
 [("inverse","src/Matrix_Ops/invert.c"),("LU determinant","src/Matrix_Ops/LU.c"),("eigenvalues","src/Matrix_Ops/evalues.c")])
prop("C11", "Lie-algebra basis and structure constants obey their identities",
 "The generators are traceless, hermitian and normalised to one half; the structure constants computed from them are the fully antisymmetric and symmetric constants of the commutation and anticommutation relations; and the colour traces formed with them equal the explicit contractions of the matrices.",
 ["inputs", "configurations"], "all N and all traceless hermitian matrix triples",
 "Tests check the sums on a fixed matrix only.",
 ["src/Matrix_Ops/lie_mats.c","src/Matrix_Ops/trace_abc.c"], [("generators and f,d constants","src/Matrix_Ops/lie_mats.c")])
prop("C12", "Plaquette, link-trace and Polyakov observables match brute force",
 "The average, spatial and temporal plaquettes, average link traces and Polyakov loops in each direction equal their textbook definitions evaluated site by site on the same field, with their stated normalisation, in every dimension. The static potential correlator written to file equals the brute-force correlator of Polyakov lines.",
 ["inputs", "configurations"], "all SU(N) fields, geometries with unequal extents, dimensions and gauge groups",
 "Tests evaluate the observables only on the unit field or compare with a previously printed number on a cubic lattice.",
 ["src/Field/plaqs_links.c","src/Field/POLY.c"], [("plaquettes and links","src/Field/plaqs_links.c"),("Polyakov lines","src/Field/POLY.c")])
prop("C13", "APE, stout and log smearing match their definition",
 "One smearing step in three or four dimensions equals the published formula for APE, stout or log link smearing evaluated with the original links, keeps links in SU(N), leaves the temporal links untouched in the spatial case, and n steps equal n successive single steps.",
 ["inputs", "configurations"], "all fields, smearing parameters, step counts, geometries, gauge groups and dimensions",
 "No unit test calls any smearing routine.",
 ["src/Smear/smear.c","src/Smear/staples.c","src/Smear/projectors.c","src/Wrappers/SM_wrap.c"],
 [("smearing driver","src/Smear/smear.c"),("staples","src/Smear/staples.c"),("projections","src/Smear/projectors.c")])
prop("C14", "Hypercubic-blocked smearing matches its definition in all variants",
 "HYP, HEX and HYL smearing in three and four dimensions equals the nested hypercubic construction with the documented parameters evaluated site by site, and the memory-cheap, fast and generic-dimension implementations agree with one another.",
 ["inputs", "configurations"], "all fields, all alpha parameters, step counts, geometries and implementations",
 "No unit test calls any smearing routine.",
 ["src/Smear/HYP.c","src/Smear/4D_fast.c","src/Smear/ND_generic_HYP.c","src/Smear/projectors.c"],
 [("3D HYP","src/Smear/HYP.c"),("4D HYP","src/Smear/4D_fast.c"),("generic","src/Smear/ND_generic_HYP.c")])
prop("C15", "Wilson flow integrates the flow equation",
 "The fixed-step flow equals a third-order Runge-Kutta integration of the gradient-flow equation, identically for both memory layouts; reversing the sign runs it backwards; the plaquette increases monotonically along forward flow; and the reported flow time, plaquette, clover and action observables are those of the flowed field. The adaptive flow reaches the same field as a fine fixed-step flow within its tolerance.",
 ["inputs", "configurations"], "all fields, step sizes, step counts, projection types and geometries",
 "No unit test runs the flow.",
 ["src/Smear/wflow.c","src/Smear/wflowfuncs.c","src/Smear/adaptive_flow.c"],
 [("RK3 steps","src/Smear/wflowfuncs.c"),("flow driver","src/Smear/wflow.c"),("adaptive step","src/Smear/adaptive_flow.c")])
prop("C16", "Landau and Coulomb gauge fixing reach the gauge condition within the gauge orbit",
 "Gauge fixing ends in a field that is a gauge transform of the input: links stay in SU(N) and gauge-invariant observables are unchanged. When it reports convergence, the lattice divergence of the gauge field is below the requested accuracy on all sites (Landau) or all time slices (Coulomb), and the gauge functional has not become worse than at the start.",
 ["inputs", "configurations"], "all fields (hot, warm, gauge copies of cold ones), geometries, accuracies, field definitions, algorithms (steepest descent, conjugate gradient, over-relaxation), gauge groups",
 "No unit test runs gauge fixing.",
 ["src/Gfix/Landau.c","src/Gfix/FACG.c","src/Gfix/CFACG.c","src/Gfix/Coulomb.c","src/Gfix/CG.c","src/Gfix/Or.c","src/Gfix/line_search.c","src/Gfix/lin_derivs.c","src/Gfix/log_derivs.c","src/Gfix/gftests.c","src/Wrappers/GF_wrap.c"],
 [("Landau","src/Gfix/Landau.c, src/Gfix/FACG.c"),("Coulomb","src/Gfix/Coulomb.c, src/Gfix/CFACG.c"),("over-relaxation","src/Gfix/Or.c")])
prop("C17", "Axial, maximal-tree and residual gauges satisfy their defining conditions",
 "Axial fixing sets every link in the chosen direction to the identity except on the final slice; maximal-tree fixing sets every link of the tree to the identity; the residual time-slice fixing aligns the spatially averaged temporal links. All of them are gauge transforms of the input field.",
 ["inputs", "configurations"], "all fields, geometries, dimensions and gauge groups",
 "No unit test runs any of these gauges.",
 ["src/Gfix/MAG.c","src/Wrappers/GF_wrap.c"], [("axial and maximal tree","src/Gfix/MAG.c")])
prop("C18", "Monte-Carlo updates are valid and target the Wilson action",
 "Over-relaxation preserves the Wilson action exactly and changes links; heat-bath updates keep links in SU(N), and the SU(2) subgroup updates have the Kennedy-Pendleton/Boltzmann distribution for the given staple and coupling. Local updates use exactly the sum of staples of the updated link with current values of its neighbours.",
 ["inputs", "configurations", "histories"], "all fields, couplings, numbers of sweeps, geometries, gauge groups",
 "No unit test performs an update.",
 ["src/Update/hb.c","src/Update/KPHB.c","src/Update/relax.c","src/Update/SU2_rotate.c","src/Update/SU2_rotate_SSE.c","src/Smear/staples.c"],
 [("heat bath","src/Update/hb.c"),("over-relaxation","src/Update/relax.c"),("driver","src/Update/KPHB.c"),("SU(2) embedding","src/Update/SU2_rotate.c")])
prop("C19", "Random numbers are deterministic, in range, independent and resumable",
 "For a given seed the generators give the same sequence every time, different threads and seeds give different streams, uniform deviates lie in [0,1), and the generated Gaussians and SU(N) matrices have the stated distributions. Saving the generator state and reading it back continues exactly the sequence that would have followed.",
 ["inputs", "histories", "configurations"], "all seeds, thread counts, draw histories and save points, all configured generators",
 "No unit test touches the generators beyond drawing a matrix.",
 ["src/Utils/par_rng.c","src/Utils/par_MWC_4096.c","src/Utils/par_MWC_1038.c","src/Utils/par_KISS.c","src/Utils/par_WELL_512.c","src/Utils/par_XOR_1024.c"],
 [("generator front end","src/Utils/par_rng.c"),("generators","src/Utils")], observe=["par_rng_dbl","write_par_rng_state","read_par_rng_state"])
prop("C20", "Results do not depend on the number of threads",
 "Observables, smearing, flow, gauge transformation, gauge-fixing quality measures, files written and local updates give the same result for every number of threads, bitwise for local operations and up to summation rounding for reductions.",
 ["schedules", "inputs", "configurations"], "all thread counts and schedules, all fields and geometries",
 "The tests run with one thread only.",
 ["src/Smear","src/Gfix","src/Field","src/Utils/GLU_sums.c","src/IO"], [("parallel loops","src")])
prop("C21", "Quenched U(1) fields and their observables are correct",
 "Coupling an SU(N) field to a quenched U(1) field multiplies every link by one phase per link whose gauge potential has the momentum-space distribution of the Feynman-gauge photon of the given coupling, with the modes of zero spatial momentum removed (QED_L); configurations are saved with their U(1) part. The U(1) plaquette, Polyakov, and topological (monopole, Dirac sheet, charge) observables reported for a field of phases equal their definitions.",
 ["inputs", "configurations"], "all couplings, charges, seeds, geometries and U(1) phase fields",
 "No unit test covers the U(1) code.",
 ["src/U1/SUNCxU1_config.c","src/U1/U1_obs.c","src/U1/U1_top.c"], [("photon field","src/U1/SUNCxU1_config.c"),("observables","src/U1/U1_obs.c, src/U1/U1_top.c")])
prop("C22", "Field-strength and topological charge equal the clover definition",
 "The topological charge and energy density equal the (improved) clover-leaf field-strength definition evaluated independently on the same field; the charge is odd under parity, vanishes on the trivial field, and is near an integer for a smooth instanton.",
 ["inputs", "configurations"], "all SU(N) fields in four dimensions, all geometries",
 "No unit test evaluates the clover terms on a non-trivial field.",
 ["src/Field/clover.c"], [("clover terms","src/Field/clover.c")])
prop("C23", "Topological correlators, slabs and moments match direct sums",
 "The topological-charge correlator, time-slice correlator, slab sums and moments written to file equal the direct sums over the charge density of the same field, and satisfy the sum rules linking them to the total charge.",
 ["inputs", "configurations"], "all charge densities, geometries, cut parameters, directions",
 "No unit test covers these measurements.",
 ["src/Field/Qcorr.c","src/Field/Qsusc.c","src/Field/Qslab.c","src/Field/Qmoments.c"],
 [("correlator","src/Field/Qcorr.c"),("slab","src/Field/Qslab.c"),("moments","src/Field/Qmoments.c")])
prop("C24", "Momentum cuts and gluon propagators match direct computation",
 "The momenta kept by every cut are exactly those satisfying the cut's inequality and are closed under reflection; and the gluon two- and three-point functions written to file equal a direct Fourier transform and contraction of the same gauge field with the documented normalisation, in a file others can parse.",
 ["inputs", "configurations"], "all fields, geometries, cut types and parameters, field definitions",
 "No unit test covers propagators; only trivial momentum helpers are touched.",
 ["src/Cuts/cuts.c","src/Cuts/cut_routines.c","src/Cuts/cut_output.c","src/Cuts/glueprop.c","src/Cuts/MOMgg.c","src/Cuts/MOMggg.c","src/Cuts/3Dcuts.c","src/Cuts/config_gluons.c","src/Cuts/triplet_gen.c","src/Cuts/smearing_param.c","src/Cuts/pspace_landau.c"],
 [("cuts","src/Cuts/cut_routines.c"),("propagators","src/Cuts/glueprop.c, src/Cuts/3Dcuts.c"),("output","src/Cuts/cut_output.c")])
prop("C25", "Spline, root-finding and summation utilities are correct",
 "Spline derivatives and interpolation reproduce polynomials up to their design order, the cubic minimum and crossing solvers return points satisfying their defining equation inside the data range when one exists, and the summation routines equal the exact sum to within their error bound for any length and thread count.",
 ["inputs"], "all abscissae and data, all array lengths and summation windows",
 "Unit tests do not call the numerical utilities.",
 ["src/Utils/GLU_splines.c","src/Utils/GLU_sums.c"], [("splines","src/Utils/GLU_splines.c"),("sums","src/Utils/GLU_sums.c")])
prop("C26", "Input files are parsed to the settings they state, or rejected",
 "A well-formed input file yields exactly the run settings it states for every tag (or the documented default where the documentation gives one for all other values) and any order of lines; a missing or invalid tag or value makes the program fail with a message instead of running with another setting; no input file content corrupts memory.",
 ["inputs"], "all tag orders, values, spacings, missing tags, malformed lines",
 "No unit test reads an input file.",
 ["src/IO/input_reader.c","src/Utils/str_stuff.c"], [("input reader","src/IO/input_reader.c")])
prop("C27", "The command-line program honours its modes, files and failure reporting",
 "Each run mode of the program performs the operation the input file names on the configuration given, prints the observables of that configuration and writes the requested output in the requested format; it never overwrites an existing output configuration; two runs with the same seed give the same result. An unreadable input file or configuration, a target that cannot be written or an operation that fails produces an error message, a nonzero exit status and no output file.",
 ["inputs", "programs", "configurations"], "all combinations of mode, input settings, configuration formats and output targets",
 "No test runs the program.",
 ["src/Run/Mainfile.c","src/Wrappers/GLUlib_wrap.c","src/Wrappers/OBS_wrap.c","src/Wrappers/SM_wrap.c","src/Wrappers/GF_wrap.c","src/Wrappers/CUT_wrap.c","src/IO/input_help.c"],
 [("program","src/Run/Mainfile.c"),("mode wrappers","src/Wrappers")])
prop("C28", "Byte-swap and checksum primitives match their definitions",
 "The 32- and 64-bit byte swaps reverse each word of the array and are involutions that touch nothing beyond it; the CRC-32 equals the standard CRC-32 and POSIX cksum for every buffer; the SciDAC checksum accumulates each site at its rank rotations independently of visiting order.",
 ["inputs"], "all buffers, lengths and site ranks",
 "Unit tests do not call them.",
 ["src/Utils/GLU_bswap.c","src/IO/crc.c"], [("byte swap","src/Utils/GLU_bswap.c"),("checksums","src/IO/crc.c")])
prop("C29", "Measurements and smearings respect the lattice symmetries",
 "Translating the field periodically, permuting equivalent directions, reflecting an axis, complex-conjugating all links or repeating the field periodically in a larger box transforms every observable, smearing, flow and gauge-fixed quantity in the corresponding way: scalars are unchanged, the topological charge flips sign under reflection, Polyakov loops are conjugated under charge conjugation, and fields are mapped covariantly.",
 ["inputs", "configurations"], "all fields, shifts, permutations, reflections, geometries and gauge groups",
 "Tests never compare two related fields.",
 ["src/Field","src/Smear","src/Geometry/geometry.c"], [("observables","src/Field"),("smearing","src/Smear")])
prop("C30", "Generated configurations are what they claim to be",
 "The unit configuration has all links equal to the identity, random configurations and random transforms have SU(N) links that depend only on the seed, reunitarising a lattice leaves all links in SU(N), and the instanton configuration has unit-size topological charge and links in SU(N) embedded in an SU(2) subgroup.",
 ["inputs", "configurations"], "all seeds, geometries, gauge groups",
 "Tests use the generators as fixtures without examining their output.",
 ["src/Geometry/random_config.c","src/Geometry/BPST_config.c"], [("random configurations","src/Geometry/random_config.c"),("instanton","src/Geometry/BPST_config.c")])
prop("C31", "All build variants compute the same results",
 "Builds with and without vector instructions, the Fourier-transform library, OpenMP and GSL, with either exponential/logarithm option, by either compiler and at any optimisation level give the same result, up to rounding, for the same input in every routine both offer; files of one build are read the same by the others. The documented compile-time options compile and link in any sensible combination and change only the results they document. The routine chosen because the machine has little memory computes the same as the one that needs more.",
 ["configurations", "inputs"], "all fields, combinations of the documented build options, amounts of memory",
 "The tests of each build compare only with constants, never between builds, and most routines are not exercised.",
 ["src/Matrix_Ops","src/Update","src/Field","src/Cuts"], [("vectorised twins","src/Matrix_Ops/*_SSE.c, src/Update/SU2_rotate_SSE.c"),("non-FFT paths","src/Field/POLY.c, src/Field/Qcorr.c")])
prop("C32", "Any history of operations leaves a valid gauge field that behaves like its model",
 "After any sequence of reading, writing, gauge transforming, smearing, flowing, updating, gauge fixing and measuring, on one field or several, also when the lattice extents or the number of threads change in between, links are in SU(N), navigation is unchanged, measuring observables changes nothing, other fields are untouched, gauge operations keep the plaquette, and every operation does what it does to the same field in a process without a history: nothing an earlier operation left behind (tables, work space, generator, settings) shows. A saved and reloaded configuration continues the history identically.",
 ["histories", "inputs", "configurations"], "all finite sequences of operations on all fields, geometries and numbers of threads",
 "No test executes a sequence of operations.",
 ["src/Wrappers","src/IO","src/Smear","src/Gfix","src/Update","src/Field"], [("operation entry points","src/Wrappers, src/Smear, src/Gfix, src/Update")],
 state=[("lattice links","the SU(N) matrices on all sites and directions"),("navigation","neighbour tables")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if S:
    for p in P: jsonschema.validate(p, S)
