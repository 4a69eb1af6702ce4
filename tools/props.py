#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property); run to regenerate the file."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Task partition over MPI ranks is exact, ordered and balanced",
     "For every number of tasks and every number of ranks, the task blocks the ranks own are contiguous, in rank order, "
     "pairwise disjoint and together exactly 0..ntasks-1, and their lengths differ by at most one. "
     "All ranks agree on every block length, and what each rank reports as its tasks, slice and size is the same block.",
     ["inputs", "configurations"], "all ntasks >= 0 (also fewer tasks than ranks) and all communicator sizes >= 1",
     "the test samples one task count on one and two ranks",
     ["src/dga/mpi_aux.py"], [("MpiDistributor.distribute_tasks", "src/dga/mpi_aux.py")],
     [("sizes/my_slice", "block lengths of all ranks / own block", "MpiDistributor")],
     ["MpiDistributor.my_tasks", "my_slice", "my_size", "sizes"])
prop("C02", "Collectives return exactly the distributed data, in task order, on any rank count",
     "Scattering an array over its first axis gives every rank exactly its own block; gather (on the root) and allgather (everywhere) "
     "return the concatenation of the blocks in task order; allreduce returns the elementwise sum on every rank and bcast the root's object. "
     "This holds for every (contiguous) array of any trailing shape, numeric data type, root rank and number of ranks, also when some ranks own no task, "
     "and in every schedule of the ranks all calls complete with the input arrays unchanged.",
     ["inputs", "configurations", "schedules"], "all rank counts, task counts, trailing shapes, dtypes, roots; all interleavings of the ranks",
     "the only MPI test uses two ranks and one shape with root 0",
     ["src/dga/mpi_aux.py"], [("MpiDistributor.scatter/gather/allgather/allreduce/bcast", "src/dga/mpi_aux.py")],
     [("rank data", "block held by a rank", "return value of scatter")], ["return values of the five collectives"])
prop("C03", "Vertices written by the ranks are reassembled at the right momentum and frequency",
     "After every rank has written the ladder, pairing and optics vertex slices of its own (momentum, bosonic frequency) tasks to its rank file, "
     "loading them returns for every channel, every irreducible momentum and every bosonic frequency (positive, zero and negative) exactly the slice that was written for it, "
     "whatever the number of ranks. The full ladder vertex keeps every fermionic entry; the pairing vertex is each entry of the pp-transformed slices "
     "averaged with its Hermitian conjugate, and slices outside the requested frequency window contribute nothing.",
     ["inputs", "configurations", "schedules"], "all box sizes, momentum sets, channels, rank counts and write orders",
     "no test touches rank files or the vertex loaders",
     ["src/dga/four_point.py", "src/dga/pairing_vertex.py", "src/dga/optics.py", "src/dga/mpi_aux.py"],
     [("save_and_load group names", "src/dga/four_point.py, pairing_vertex.py, optics.py"), ("get_pp_slice_4pt, get_omega_condition, reshape_chi", "src/dga/pairing_vertex.py")],
     [("rank files", "HDF5 groups keyed by momentum and frequency", "<output>/...Rank%05d.hdf5")],
     ["load_pairing_vertex_from_rank_files", "load_vertex_from_rank_files", "load_optics_vertex_from_rank_files"])
prop("C04", "A ladder run gives the same result on any number of ranks and never deadlocks",
     "For a fixed configuration and DMFT input, running the full ladder calculation on any admissible number of MPI ranks completes "
     "and produces the same set of output files with the same content (susceptibilities, lambda parameters, self-energy, chemical potential, pairing vertices, eigenvalues). "
     "All ranks issue the same sequence of collective operations, every rank's scratch files are gone at the end, and nothing is written outside the run's own output folder.",
     ["configurations", "schedules", "histories"], "all rank counts up to the number of irreducible momenta, all configuration switches that select a computation",
     "no test runs the ladder calculation end to end, let alone on several ranks",
     ["src/dga/dga_main.py", "src/dga/mpi_aux.py", "src/dga/four_point.py", "src/dga/two_point.py"],
     [("main/execute", "src/dga/dga_main.py")], [("output folder", "result files of one run", "LDGA_*")],
     ["output folder content", "sequence of MPI calls per rank"])
prop("C05", "Irreducible Brillouin-zone reduction is sound, lossless and consistent",
     "For every mesh size and every set of lattice symmetries, two mesh points share an irreducible representative only if some composition of the selected "
     "symmetries maps one to the other, each representative is itself a point of its class, and for the named square, nematic and quasi-one/two-dimensional symmetry sets all points equivalent under the set are merged. "
     "Multiplicities add up to the number of mesh points, expanding irreducible data to the full mesh and reducing it again is the identity, a symmetric function survives reduction and "
     "expansion unchanged, and means taken over the irreducible points with their weights equal means over the full mesh.",
     ["inputs", "configurations"], "all mesh sizes (even, odd, 1, non-cubic) and all symmetry tuples",
     "tests pin three symmetries on one or two mesh sizes",
     ["src/dga/brillouin_zone.py"], [("KGrid.set_irrk_maps, map_*", "src/dga/brillouin_zone.py"), ("apply_symmetries", "src/dga/brillouin_zone.py")],
     [("irrk_ind/irrk_inv/irrk_count", "representatives, class map, multiplicity", "KGrid")],
     ["KGrid.map_irrk2fbz", "KGrid.map_fbz2irrk", "KGrid.k_mean", "KGrid.symmetrize_irrk"])
prop("C06", "Momentum-grid operations move values to the right momentum",
     "Reshaping between momentum mesh and momentum list is a bijection in row-major order that leaves all frequency axes untouched, and shifting a momentum-dependent "
     "function by q gives at each k the original value at k - q modulo reciprocal lattice vectors, so that shifts compose and invert. "
     "Momentum lists enumerate exactly the mesh points they claim. "
     "Points selected along a k-path or by momentum value refer to the mesh point with these coordinates on every, also non-cubic, mesh.",
     ["inputs"], "all mesh sizes, shifts and trailing shapes", "tests use two meshes and no shift composition or path",
     ["src/dga/brillouin_zone.py"], [("shift_mat_by_*, find_qpd_zeros, KPath, KGrid.*_mesh/list", "src/dga/brillouin_zone.py")], [],
     ["shift_mat_by_ind/q/pi", "KGrid.get_q_list/irrk_mesh", "KPath.*"])
prop("C07", "Matsubara window operations keep every value at its frequency",
     "Every operation that cuts, extends, mirrors, concatenates or adds Matsubara functions returns an array in which the entry at each frequency is the value the input had at that frequency "
     "(or its complex-conjugate mirror where the operation defines it by symmetry), along exactly the requested axes and for every window size. "
     "Frequency grids list each fermionic and bosonic index once in increasing order, centred as documented with shift and positive-only options, and cutting after extending returns the input.",
     ["inputs"], "all window sizes, axes, shifts and dimensions", "tests check a handful of 1-d grids",
     ["src/dga/matsubara_frequencies.py", "src/dga/local_four_point.py", "src/dga/two_point.py"],
     [("vn, wn, cut_v, cut_w, inv_cut_v, add_bosonic, *_full_nu_range", "src/dga/matsubara_frequencies.py")], [],
     ["functions of dga.matsubara_frequencies"])
prop("C08", "Frequency-convention changes are faithful relabelings",
     "Changing the frequency notation of a quantity (plus, minus and centred bosonic shifts, w to v-v', particle-hole to particle-particle with and without crossing, core and shell slices "
     "around a shifted frequency) gives at each new frequency tuple exactly the entry that the definition of the notation assigns to it, up to the documented sign, with no entry outside the "
     "stored window used and no entry mirrored or transposed. Each bosonic shift pair differs by exactly the bosonic frequency.",
     ["inputs"], "all window sizes, bosonic frequencies and notations", "no test covers them",
     ["src/dga/matsubara_frequencies.py", "src/dga/pairing_vertex.py", "src/dga/local_four_point.py"],
     [("get_freq_shift, ph2pp*, w_to_vmvp, wn_slices_*", "src/dga/matsubara_frequencies.py"), ("get_omega_condition, get_pp_slice_4pt", "src/dga/pairing_vertex.py")], [],
     ["return values"])
prop("C09", "Bare bubbles obey their definition",
     "The local and the lattice bare bubble equal -beta G(v)G(v-w) and -beta times the momentum average of G(k,v)G(k+q,v-w) with the notation's shifts, at each bosonic frequency, fermionic frequency and momentum, "
     "for core, shell and asymptotic windows alike. Computing only non-negative bosonic frequencies and extending by symmetry equals the direct computation, and the physical bubble susceptibility is the "
     "fermionic sum of the bubble with its asymptotic tail.",
     ["inputs"], "all Green's functions, meshes, windows, momenta", "no bubble test runs (datasets missing)",
     ["src/dga/bubble.py"], [("BubbleGenerator, LocalBubble, vec_get_gchi0 etc.", "src/dga/bubble.py")], [], ["BubbleGenerator.*"])
prop("C10", "Local vertex functions satisfy the exact diagrammatic relations",
     "Generalized susceptibility, full vertex, irreducible vertex, three-leg vertex and physical susceptibility produced from the same two-particle Green's function satisfy the Bethe-Salpeter relations "
     "between them at every frequency, in both spin channels. Conversions between any two of these quantities and back return the original, the u-range (asymptotically corrected) variants "
     "reduce to the uncorrected ones when no shell is added, and channel combinations act entry by entry without altering their operands.",
     ["inputs"], "all invertible inputs, windows, channels and interaction values", "no four-point test runs (datasets missing)",
     ["src/dga/local_four_point.py"], [("gchi_from_g2, gamob2_from_gchi, gchi_from_gamob2, Fob2*, vrg*, chi_phys*", "src/dga/local_four_point.py")], [], ["LocalFourPoint, LocalThreePoint, LocalTwoPoint values"])
prop("C11", "Ladder quantities obey the lattice Bethe-Salpeter equation",
     "For every momentum and bosonic frequency, the auxiliary susceptibility, the three-leg vertex, the physical susceptibility and the ladder vertex computed from the local irreducible vertex and "
     "the lattice bubble satisfy the lattice ladder equations in both channels, and each entry depends only on its own momentum and frequency. If the lattice bubble is the local one, each lattice "
     "quantity equals the corresponding local one.",
     ["inputs"], "all local vertices, bubbles, momenta, frequencies", "no ladder test runs",
     ["src/dga/four_point.py"], [("get_vrg_and_chir_*, fob2, gchi_aux", "src/dga/four_point.py")], [], ["LadderObjects"])
prop("C12", "Schwinger-Dyson self-energy sums the right vertex and Green's function entries",
     "The self-energy from the local and from the lattice equation of motion equals the documented frequency and momentum sum of interaction, three-leg vertex, susceptibility and shifted Green's function, "
     "with each momentum weighted equally and each bosonic frequency counted once. It is linear in the kernel, splits over any distribution of momenta, and for momentum-independent input the lattice result equals the local one.",
     ["inputs", "configurations"], "all kernels, Green's functions, meshes, windows and momentum distributions", "no SDE test runs",
     ["src/dga/local_four_point.py", "src/dga/two_point.py", "src/dga/four_point.py"], [("schwinger_dyson_*", "src/dga")], [], ["self-energy arrays"])
prop("C13", "Lambda correction enforces the sum rule from the right side",
     "After a spin-and-charge correction each lattice susceptibility summed over all momenta and frequencies equals the local sum of its channel, and after a spin-only correction the magnetic sum makes the total of both channels equal the local total "
     "while density is untouched; without correction all susceptibilities are unchanged. The correction adds one constant per channel to the inverse susceptibility, and that constant lies right of the largest pole so that the corrected static susceptibility is positive at every momentum.",
     ["inputs"], "all susceptibilities, irreducible momentum weights, targets and correction types", "no lambda test runs",
     ["src/dga/lambda_correction.py"], [("lambda_correction, lambda_correction_single", "src/dga/lambda_correction.py")], [], ["corrected susceptibilities, lambda_start, lambda"])
prop("C14", "Eliashberg solver returns genuine leading eigenpairs of the pairing kernel",
     "Each returned eigenvalue and gap function satisfies the linearized gap equation built from the (inversion-symmetric) pairing vertex and the squared Green's function, the gap keeps the momentum and frequency symmetry that was requested through the starting gap or vertex symmetrization, "
     "and the leading eigenvalue is the largest one in that symmetry sector whenever the spectral shift applies (the kernel's dominant eigenvalue is negative) or the sector's largest eigenvalue dominates in magnitude. Singlet and triplet results come from the correspondingly symmetrized vertex, and inputs are not modified.",
     ["inputs"], "all vertices, Green's functions, meshes and starting gaps", "tests compare against a few matrices",
     ["src/dga/eliashberg_equation.py"], [("EliashbergPowerIteration, get_gap_start, symmetrize_gamma", "src/dga/eliashberg_equation.py")], [], ["lambda, gap"])
prop("C15", "Tight-binding Hamiltonians are the Hermitian Fourier sum of their hoppings",
     "For every hopping table, H(k) equals the sum of hoppings times the Bloch phase at each mesh momentum, and its k-derivatives equal the analytic derivative of that sum. "
     "Built-in lattice constructors give Hermitian H(k) with exactly the documented neighbours, orbital indices and requested hopping on every orbital, and agree with the closed-form dispersions of the same models.",
     ["inputs"], "all hopping tables, orbital counts and meshes", "tests check one square lattice",
     ["src/dga/wannier.py"], [("WannierHr, wannier_one_band_*, convham, light_vertex, ek_3d", "src/dga/wannier.py")], [], ["get_ek, get_light_vertex"])
prop("C16", "Hamiltonian files round-trip",
     "Writing a hopping table or a momentum-space Hamiltonian to file and reading it back returns the same hoppings, lattice vectors, orbital indices, mesh and values (to the printed precision of six decimals), for every number of orbitals, hoppings and mesh points. "
     "Files of other programs in the same formats (any of the header versions, comments, extra momenta, spin blocks) are read into the same layout, and a file with too few momenta is rejected.",
     ["inputs"], "all tables, orbital numbers, mesh sizes and degeneracy line lengths", "one file is round-tripped in the tests",
     ["src/dga/wannier.py"], [("write_hr_w2k, read_hr_w2k, write_hk_wannier90, read_hk_w2k", "src/dga/wannier.py")], [], ["files and parsed arrays"])
prop("C17", "Frequency boxes and lattice symmetries in the config resolve as documented",
     "Every combination of given and defaulted frequency-box entries resolves to a consistent box: given values are kept, defaulted ones are derived from the available DMFT data and each other, and requests exceeding the data are rejected. "
     "The optics ranges resolve likewise from the box (and the asymptotic range grows to cover the bubble), symmetry names and lists map to their documented symmetry sets while unknown names are rejected, unspecified sections and entries fall back to documented defaults, "
     "the configured analytic-continuation mesh has the configured type, range and size, every point of the q-mesh is looked up as the same momentum of the k-mesh, and the settings a run writes next to its results are the ones it used.",
     ["configurations"], "all combinations of given/default entries and data sizes", "config tests only read template files",
     ["src/dga/config.py"], [("BoxSizes, LatticeConfig, OpticsConfig, ConfigBase", "src/dga/config.py")], [], ["config attributes"])
prop("C18", "Every run writes to its own fresh output folder",
     "For any history of earlier runs and any number of ranks, a run never reuses an existing output folder: all ranks agree on one new folder named after the run's parameters, with the smallest free numeric suffix, "
     "it exists with all its requested sub-folders (Plots, Eliashberg, Optics, and PolyFits if requested) before any rank goes on, runs started at the same time never share a folder, and no earlier folder is changed.",
     ["histories", "configurations", "schedules"], "all histories of runs, folder states and rank schedules", "no test creates output folders",
     ["src/dga/config.py", "src/dga/util.py", "src/dga/dga_main.py"], [("OutputConfig/create_folders, uniquify", "src/dga")], [], ["file system"])
prop("C19", "DMFT input is loaded into the right quantity, cut and symmetrized",
     "Loading a DMFT calculation returns the stored Green's function, self-energy, interaction and density, and the density and magnetic two-particle functions cut to the requested core box so that every entry is the stored "
     "one at the same frequencies of the same channel. Symmetrization in the fermionic frequencies averages each entry with exactly its transpose, and requests beyond the stored box are rejected or clipped as documented.",
     ["inputs", "configurations"], "all stored boxes, requested boxes and channels", "datasets missing, no test runs",
     ["src/dga/dga_io.py", "src/dga/w2dyn_aux_dga.py", "src/dga/local_four_point.py"], [("load_1p_data, load_g2, build_g2_obj", "src/dga/dga_io.py")], [], ["returned objects"])
prop("C20", "Spin symmetrization of worm samples averages exactly the equivalent components",
     "Extracting density and magnetic two-particle functions from sampled spin-orbital components averages exactly the components related by SU(2) and spin-flip symmetry with the right sign and prefactor for each bosonic frequency, "
     "band/spin component indices convert to and from the flat index as a bijection, missing samples count as zero, the sampled file is never changed and an existing result is never overwritten.",
     ["inputs"], "all frequency boxes, component sets and orbital numbers", "no test covers it",
     ["src/dga/symmetrize.py"], [("extract_g2_general, index2component_general, component2index_band", "src/dga/symmetrize.py")], [], ["output file of sym1b"])
prop("C21", "Analytic continuation treats each k-point independently and isolates failures",
     "Continuing a set of momentum points returns at each momentum the spectrum of that momentum's own data, in the order given; if the solver fails on some points, exactly those points are zero and all others are unaffected. "
     "Frequency meshes are strictly increasing, symmetric or one-sided as requested, and contain exactly the requested end points. Extrapolations to zero frequency use only the requested lowest frequencies of the point itself.",
     ["inputs", "fault_sequences"], "all index lists, failing subsets and mesh options", "tests never make a point fail",
     ["src/dga/analytic_continuation.py", "src/dga/dga_max_ent.py"], [("MaxEnt scheduling", "src/dga")], [], ["continued arrays"])
prop("C22", "Green's function and self-energy objects assemble core and tail consistently",
     "A self-energy object returns inside its core window exactly the data it was given and outside the tail it was constructed with, in every momentum representation and for every requested window, with positive and negative frequencies "
     "complex conjugates. The Green's function satisfies the Dyson equation with the given dispersion, chemical potential and self-energy at each momentum and frequency, and its local part is the momentum mean. "
     "Filling, kinetic and potential energy are the corresponding momentum-frequency sums, a chemical potential that is searched for a requested filling reproduces that filling, and real-frequency Green's functions obey the same relations.",
     ["inputs"], "all windows, meshes, self-energies", "no two-point test runs",
     ["src/dga/two_point.py"], [("SelfEnergy, GreensFunction", "src/dga/two_point.py")], [], ["get_siw, g_full, g_loc"])
prop("C23", "Optical response combines bubble and vertex parts entry by entry",
     "The current-current bubble equals the momentum average of light vertices and Green's functions at each frequency, and the vertex contribution sums the ladder vertex between two such bubbles once for each pair of momenta and fermionic frequencies; "
     "distributing the momenta over ranks does not change the result. On the real axis the bubble is the momentum average of the spectral convolution shifted by the frequency itself, whatever the mesh, and the conductivity is its imaginary part over the frequency.",
     ["inputs", "configurations"], "all vertices, Green's functions, meshes and rank counts", "no optics test runs",
     ["src/dga/optics.py"], [("get_jj_bubble, vertex_correction", "src/dga/optics.py")], [], ["chi_jj"])

prop("C24", "A whole run computes what the ladder equations prescribe for its input and configuration",
     "The files a ladder run leaves behind are the solution of its equations for the DMFT input and the configuration it was given: the local irreducible vertices, susceptibilities and self-energy follow from the "
     "(symmetrised, cut) two-particle input; the ladder susceptibilities are the local vertex dressed by the lattice bubble at each momentum and corrected by the printed lambdas, which satisfy the selected sum rule; "
     "the lattice self-energy is the equation of motion over every momentum and bosonic frequency with the corrected susceptibilities, minus the double counting, with the local part exchanged for the DMFT one, the Hartree term added once, and the DMFT self-energy outside the core; "
     "Green's function, chemical potential, energies, pairing vertices, ladder vertices and optical response belong to that self-energy and those susceptibilities, and so do the numbers derived from them: uniform static susceptibilities with the tail of the bubble, Ornstein-Zernike coefficients, extrapolations to zero frequency at each momentum, and gap functions with their eigenvalues. Without dispersion the run returns the DMFT self-energy. The run leaves exactly the result files its configuration asks for: every requested result, and no intermediate vertex that is not to be kept.",
     ["inputs", "configurations"], "all inputs, meshes (q- and k-meshes), symmetries, boxes, lambda corrections and switches of a run",
     "no test runs the calculation from input to output; unit tests cannot see how the pieces are combined",
     ["src/dga/dga_main.py", "src/dga/high_level_routines.py", "src/dga/four_point.py", "src/dga/two_point.py", "src/dga/dga_io.py"],
     [("main", "src/dga/dga_main.py"), ("local_sde_from_g2, construct_vrg_and_chi_q_urange, construct_dc_kernel", "src/dga/high_level_routines.py")],
     [("output folder", "result files of one run", "LDGA_*")], ["gamma_*, chi_*_loc, chi_*_lam, lambda.txt, siw_sde_full, siwk_dga, giwk_dga, mu.txt, energies.txt, vrg_q_*, F_*, chijj_*, UniformStaticSusceptibility.txt, oz_coeff.txt, PolyFits/*, eliashberg.npy"])

prop("C25", "Maximum-entropy continuation returns the optimum of its functional",
     "For every kernel (fermionic or bosonic, frequency or imaginary time), mesh, default model, error (per point or covariance) and data, the kernel matrix is the documented function of each pair of imaginary and real coordinate (blurred: its Gaussian average); "
     "at every entropy weight alpha the returned spectrum is the maximiser of alpha*S - chi2/2 (stationary, positive for diagonal elements, the default model itself when the data are those of the model), and the reported chi2, entropy, norm, functional and back-transform are those of that spectrum; a smaller weight never fits worse. "
     "Each way of choosing the weight (kink of the misfit, chi2 = N, evidence, average over the evidence) returns the solution its criterion selects, also when single optimisations on the way fail. "
     "The complex function made from a spectrum is its Kramers-Kronig transform on the mesh, and the program hands the configured data, errors, model and search to the solver and returns its result unaltered.",
     ["inputs", "fault_sequences"], "all kernels, meshes, models, errors, data, optimisers, weights and searches", "the existing tests compare a few spectra loosely",
     ["src/ana_cont/kernels.py", "src/ana_cont/solvers.py", "src/ana_cont/continuation.py", "src/dga/analytic_continuation.py"],
     [("Kernel", "src/ana_cont/kernels.py"), ("MaxentSolverSVD", "src/ana_cont/solvers.py"), ("AnalyticContinuationProblem, GreensFunction", "src/ana_cont/continuation.py")], [], ["OptimizationResult"])

prop("C26", "Pade continuation reproduces rational functions and averages the physical continuations",
     "For every set of points and values, the continued fraction built from the Pade coefficients passes through all data points; data sampled from a rational function of matching degree are reproduced everywhere in the complex plane by the recursion, by Thiele's algorithm, by the least-squares matrix (also with more points than coefficients) and by the non-linear solver, for each column of data independently, and the spectrum is minus the imaginary part over pi. "
     "Points mirrored to negative frequencies carry the complex-conjugate values. The averaged continuation tries each configured combination of first point, number of points and number of coefficients once, keeps exactly those without positive imaginary part, averages those that lie nearest to the others (never an empty set); requests that cannot be fulfilled are rejected, and input files are read as named.",
     ["inputs"], "all meshes, value vectors, coefficient numbers, solvers and subsets of physical continuations", "no test imports the module", ["src/dga/pade_aux.py"],
     [("PadeSolver, compute_coefficients", "src/dga/pade_aux.py"), ("padeMatrix, padeThiele, pick_points, pade", "src/dga/pade_aux.py")], [], [])

prop("C27", "Post-processing of continued data: Fermi surface, filling and chemical potential",
     "For every mesh and every real field on it, the extracted zero contour consists of exactly the mesh points at which the field changes its sign towards a neighbour (an empty set if there is none), also for momentum slices of a Green's function at a given energy; the zone masks leave one quadrant each; "
     "the crossing of a momentum path with a Fermi surface is, segment by segment, the point of the path nearest to it. For every self-energy and dispersion the real-frequency Green's function is 1/(w + mu - e - Sigma), the filling its integrated spectral weight up to the Fermi level, and the chemical potential found gives the requested filling. "
     "The analysis program writes the Green's function of the continued self-energy (its imaginary part bounded from zero), and the chemical potentials with and without self-energy.",
     ["inputs"], "all meshes, fields, paths, Fermi surfaces, self-energies, fillings and starting values", "no test runs the post-processing", ["src/postproc/real_frequency_two_point.py", "src/postproc/util.py", "src/postproc/plot_siwk_cont.py", "src/dga/brillouin_zone.py", "src/dga/plotting.py", "src/dga/two_point.py"],
     [("adjust_mu, get_filling", "src/postproc/real_frequency_two_point.py"), ("find_fermi_crossing", "src/postproc/util.py"), ("find_zeros, get_bz_masks", "src/dga/brillouin_zone.py"), ("get_zero_contour", "src/dga/plotting.py")], [], ["gwk_cont.npy", "mu_dga.txt"])

prop("C28", "The run log records every call of the root rank once, in order, with the right times",
     "For every sequence of log calls on any number of ranks, interleaved in any way, the log file holds its heading and then exactly one line per call made on the root rank since its logger was created, in the order of the calls and with the text given; the other ranks neither create nor write it. "
     "An event carries the time since the logger was created and the time since the previous event of that logger, in whole seconds (also beyond a day), so that the task times add up to the total; plain messages and memory lines do not restart the task time. A memory line gives the size of the array times the number of copies in GB. "
     "The stop watch on its own reports, by whichever of its methods, the time since its previous measurement, and appends to its file on rank 0 only.",
     ["histories", "schedules", "inputs"], "all sequences of calls, rank counts, messages, arrays and elapsed times", "no test imports the module", ["src/dga/loggers.py"],
     [("MpiLogger, RealTime", "src/dga/loggers.py")], [("log file", "heading and lines of the run", "dga.log"), ("_ts, _tl", "start and last measurement", "RealTime")], ["dga.log"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
