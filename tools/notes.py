NOTES = {
'C01': ("qubit lists (ordered subsets of a register) x label orders; every split/order of the calibration experiments over results and `add_data` calls, with sub-fitters taken at every point of the history",
        "circuit contents by a state-vector simulator; confusion frequencies in integer arithmetic; marginalisation by summing the integer tables",
        "tests fit one list in one order; wrong bit ends, label orders and histories are invisible there"),
'C02': ("all small tables of counts over all calibration matrices of a grid (including singular-ish and permuted ones), all four data forms, experiments per result, both methods",
        "exact linear inverse, and the exact optimum of the constrained least squares by enumerating all active sets (KKT)",
        "tests compare rounded recorded numbers of one matrix"),
'C03': ("all partitions of <= 4 qubits into ordered groups, label orders, data splits; filters against the complete filter of the tensor product",
        "explicit tensor product with the bit placement of the measurement layout", "tests use one or two partitions, all ascending"),
'C04': ("all ordered qubit and clbit selections, all queries up to a depth of history (caches), diagonals of a basis of observables, count tables",
        "dense inverse of the assignment matrix, integer-exact sample variance", "caching errors need two queries; order errors need permuted selections"),
'C05': ("all generator sets of a library on 1-3 qubits, ordered selections; **the random generator of the sampler is replaced by a scripted one and the complete tree of choices (Poisson counts, chain steps, shots) is explored**, weighting each leaf by its probability",
        "`expm` of the rate-weighted sum built independently; the exact expectation is compared with the tree average", "a biased estimator is indistinguishable from noise in any sampled test"),
'C06': ("qubit numbers x methods x noise tables x all orders/splits of the calibration experiments, foreign experiments in between, subsets of labels", "noise tables that produced the data", "tests use simulated noise with tolerances"),
'C07': ("all counts tables of <= 3 bits over a small alphabet of values, all ordered selections, register spacings, all pairs of tables to merge", "sums over matching keys, signed parities", "finite and complete within the bound"),
'C08': ("all ordered qubit selections in 1-3 registers, with and without existing classical registers, all label combinations of the Pauli/SIC/custom bases", "state-vector simulation: prepared Bloch vectors and projectors measured on all basis inputs", "each circuit is decided exactly"),
'C09': ("states x ordered selections x register layouts x splits of experiments; all tables of a small alphabet of counts for physicality", "partial trace of the prepared state; eigenvalues", "tests fit with fidelity thresholds on one or two layouts"),
'C10': ("unitary and non-unitary channels (with ancillas and resets) x selections x bases x splits; arbitrary count tables", "Choi matrices computed from the simulator", "as C09"),
'C11': ("gate sets and fiducial sets of a library (including multi-gate fiducials and noisy gates), splits of results", "Pauli transfer matrices; all predicted probabilities; gauge similarity by Gram matrix", "tests use the default gate set only"),
'C12': ("patterns x lengths x multipliers x groups x seeds x interleaved elements", "simulation of each component (exact), segmentation by barriers, prefix relation, seeds", "tests look at counts of gates of two seeds"),
'C13': ("**breadth-first exploration of the whole groups** on 1 and 2 qubits (and words up to a depth on 3), all pairs for products, all subsystems", "8th-root-of-unity matrices in exact integer arithmetic", "an error in one coset is only met by enumerating the group"),
'C14': ("all splits and orders of (seed, length) results over objects and calls, all sub-patterns, small tables; grids of exact decays; error formulas by finite differences", "relative frequencies in integers; closed-form decay data; documented formulas", "histories"),
'C15': ("all circuits up to a depth over a gate alphabet on 2-3 qubits in several registers; grids of error rates", "direct counting; definitions evaluated independently", "tests use one transpiled example"),
'C16': ("qubit lists x seeds x splits of trials, all small outcome tables (medians with ties), histories with rejected results", "ideal distributions by simulation, heavy sets by definition, exact rational sums", "ties and histories"),
'C17': ("a library of circuit words x measurement maps x couplings x gates; **the generator of pads is scripted and every pad of the circuits in the bound is explored**", "exact output distributions before/after correction", "a pad that is corrected wrongly shows up for few pads only"),
'C18': ("**the complete tree of random choices** of a run of small targets; all histories of runs (accept/reject/invalid) up to a depth, two interleaved fitters; every Pauli error after every two-qubit gate", "simulation; closed formulas of the bound and the confidence", "a test samples one path"),
'C19': ("all fault patterns of weight <= (d-1)/2 for d, T in the bound, both logical values; scaled and learnt weights", "encoded value; single-fault graph from simulation of all faults", "exhaustive over fault positions"),
'C20': ("every single (and pairs of) fault(s) at every place; every raw string; all small tables for lookup/post-selection", "stabiliser-difference rule; exact ratios", "exhaustive over strings"),
'C21': ("qubit lists x repetition counts x echo/oscillation settings", "documented gate sequences as words of matrices; names/axes", "tests only check the fit"),
'C22': ("all count tables at one point, all splits/orders of repeated points, grids of exact curves, scattered data", "integer frequencies; true parameters; independent weighted least squares", "histories and qubit order"),
'C23': ("all splits of averaged and single-shot data, all 4-point tables over an alphabet with zeros, directions; rejected data at every place of a history; schedules of all ordered lists", "weighted means and SVD; pulses read back from the schedule", "tests use averaged data of one result"),
'C24': ("all histories of calibration data; all sequences of experiments; bases of labels", "recording discriminator (training set as a multiset), expected keys", "histories"),
'C25': ("all sequences of logger operations up to a depth in a scratch directory; values, filters, dates, configurations; **all interleavings of logging threads up to a preemption bound under a controlled scheduler** (lock operations and file writes are the scheduling points)", "list model of the entries; rotation deletes whole oldest files", "schedules"),
'C26': ("all connected coupling maps up to isomorphism and labelling within the bound, n, phases; count tables for parity", "state-vector simulation; closed formulas", "all graphs"),
'C27': ("all ordered qubit lists of small devices x frames of channels x kinds of pi/2 pulses x all angles of a grid; grid of DRAG parameters",
        "frame-tracking simulation of the schedule: phase shifts are Z rotations, pulses X rotations; matrices of u2, u3", "the test only calls the function"),
'C28': ("every plot function x every index, series, group, qubit list and option (axes, label, show, title) of small fitters; every set of unmeasured bit strings",
        "the artists on the Axes (points, curves, bars, images, labels) against tables computed from the data and the fitted parameters", "tests never look at figures"),
'C29': ("an alphabet of 98 uses over all modules; every ordered pair as a history f;g;ask f;ask g in a forked process of its own (thorough: triples within a module, with data added), every use twice on shared inputs with data added to one of two objects",
        "the same use alone in a fresh process; snapshots of all inputs", "tests make one object at a time in a fixed order"),
}
