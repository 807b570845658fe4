import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
I='qiskit/ignis/'
p('C01','Readout calibration matrix equals the measured confusion frequencies',
 "For every list of qubits, the complete-calibration circuits prepare exactly each basis label on those qubits (all other qubits untouched) and measure qubit k of the list into classical bit k, and the fitted calibration matrix holds in row i, column j the fraction of shots of label j that were read as label i, for any order of the state labels. The matrix is the same however the results are split over objects and calls and in whatever order they are added. The fitter restricted to a sub-list of qubits has exactly the matrix obtained by marginalising the data to those qubits (averaging over the prepared states of the others), and the readout fidelity is the mean over the given label groups of the probability of staying in the group.",
 ['inputs','histories','configurations'],'all qubit lists and orders up to 4 qubits, all label orders, all splits/orders of the calibration results over add_data calls, all qubit sub-lists',
 'tests use one or two fixed noise patterns and symmetric noise; bit order, subset and split-history mistakes stay invisible',
 [I+'mitigation/measurement/circuits.py',I+'mitigation/measurement/fitters.py'],
 [('complete_meas_cal','mitigation/measurement/circuits.py'),('CompleteMeasFitter','mitigation/measurement/fitters.py')],['cal_matrix','readout_fidelity','subset_fitter'])
p('C02','Readout mitigation undoes the calibration on every form of data',
 "Applying a measurement filter to data that an invertible calibration matrix produced from some true distribution returns that distribution, with both the pseudo-inverse and the least-squares method; on arbitrary data the pseudo-inverse method returns the linear inverse, and the least-squares method returns non-negative entries with unchanged total that are optimal for the least-squares problem. Counts dictionaries, flat lists, concatenated lists and result objects with any number of experiments give the same values, entries keep their labels, and the caller's data is left unmodified.",
 ['inputs','configurations'],'all basis and grid data vectors on up to 3 qubits, a family of calibration matrices including asymmetric, permutation and subset-of-labels ones, all data formats and methods',
 'tests compare against a few recorded numbers for one matrix and two formats',
 [I+'mitigation/measurement/filters.py'],[('MeasurementFilter.apply','mitigation/measurement/filters.py')],['apply'])
p('C03','Tensored readout mitigation equals the tensor-product calibration',
 "For every partition of the measured qubits into ordered groups, tensored calibration circuits prepare every group in each of its basis states at some point, each group's fitted matrix holds the confusion frequencies of that group alone, and the tensored filter returns exactly what a complete filter built from the tensor product of the group matrices (placed at the bits where those qubits are measured) would return. The matrices do not depend on how and in what order the results are supplied, and the readout fidelity of a group is the mean probability of its labels being read correctly.",
 ['inputs','histories','configurations'],'all ordered partitions of up to 4 measured qubits, all data basis vectors, all splits of the results',
 'tests use one fixed pattern with recorded data; group order / bit offset errors show only for particular patterns',
 [I+'mitigation/measurement/circuits.py',I+'mitigation/measurement/fitters.py',I+'mitigation/measurement/filters.py'],
 [('tensored_meas_cal','mitigation/measurement/circuits.py'),('TensoredMeasFitter','mitigation/measurement/fitters.py'),('TensoredFilter','mitigation/measurement/filters.py')],['cal_matrices','apply'])
p('C04','Expectation-value mitigators apply the exact inverse assignment matrix',
 "For complete and tensored expectation-value mitigators, any selection and order of qubits and classical bits and any diagonal observable (including the default Z parity), the mitigated expectation value equals the expectation of the observable under the inverse assignment matrix of those qubits applied to the measured frequencies, and the reported standard deviation is the sample error of that mitigated estimator. The assignment and mitigation matrices returned for a qubit selection are those of the selected qubits and are inverse to each other. Answers never depend on which queries were made before, and without a mitigator the plain empirical expectation value and its sample error are returned.",
 ['inputs','histories','configurations'],'all qubit sub-selections and orders up to 4 qubits, all basis counts and small count tables, all diagonals from a spanning set, all query orders of length <= 3',
 'tests check tolerances of simulated noisy runs on the full register only',
 [I+'mitigation/expval/complete_mitigator.py',I+'mitigation/expval/tensored_mitigator.py',I+'mitigation/expval/utils.py',I+'mitigation/expval/base_meas_mitigator.py'],
 [('CompleteExpvalMeasMitigator','mitigation/expval/complete_mitigator.py'),('TensoredExpvalMeasMitigator','mitigation/expval/tensored_mitigator.py'),('expectation_value','mitigation/expval/utils.py')],['expectation_value','assignment_matrix','mitigation_matrix'])
p('C05','CTMP mitigation implements the continuous-time Markov noise model it is given',
 "A CTMP mitigator built from generators and rates has the generator matrix that is the rate-weighted sum of those generators on their qubits, an assignment matrix equal to its matrix exponential and a mitigation matrix equal to the inverse, for every set of local generators and every qubit selection. The mitigated expectation value computed by the sampling algorithm is an unbiased estimate of the observable under the exact inverse: averaged exactly over all of its random choices it equals that value.",
 ['inputs','configurations'],'all sets of up to 2 one- and two-qubit generators over small rate grids on up to 3 qubits, all qubit selections, all random choices of the sampler up to a truncation whose tail is bounded',
 'the repository tests of this part compare against sampled values with loose tolerances and a fixed fit',
 [I+'mitigation/expval/ctmp_mitigator.py',I+'mitigation/expval/ctmp_fitter.py',I+'mitigation/expval/ctmp_generator_set.py'],
 [('CTMPExpvalMeasMitigator','mitigation/expval/ctmp_mitigator.py')],['generator_matrix','assignment_matrix','mitigation_matrix','expectation_value'])
p('C06','Expectation-value calibration recovers the noise that produced the data',
 "For every qubit count and method, the generated calibration circuits prepare the basis states announced in their metadata, and fitting results produced by a given assignment noise returns mitigators whose assignment matrices are that noise (exactly for complete and tensored, and for CTMP when the noise is uncorrelated or acts on two qubits), for any order and split of the calibration experiments and also when only labelled subsets are present.",
 ['inputs','histories','configurations'],'up to 4 qubits, all basis labels, families of asymmetric and correlated assignment matrices, all permutations/splits of experiments',
 'tests use a single simulated noise model and loose thresholds',
 [I+'mitigation/expval/circuits.py',I+'mitigation/expval/fitter.py',I+'mitigation/expval/ctmp_fitter.py',I+'mitigation/expval/utils.py'],
 [('expval_meas_mitigator_circuits','mitigation/expval/circuits.py'),('ExpvalMeasMitigatorFitter','mitigation/expval/fitter.py')],['fit','mitigator'])
p('C07','Counts utilities conserve shots and address bits by qubit index',
 "Marginalising a counts dictionary keeps the total number of shots and gives, for each assignment of the selected qubits (in the documented bit order, also with classical-register spaces), the sum of all matching counts, padded with zero entries when requested. Merging counts dictionaries adds the values key by key and leaves its arguments unchanged, and the derived Pauli-Z expectation table gives for every subset of qubits the signed average of that subset's parity.",
 ['inputs'],'all counts dictionaries over up to 3 bits with small values, all qubit selections, with/without register spaces and padding',
 'tests sample a couple of dictionaries; bit order, identity key and aliasing errors appear only for particular widths and histories',
 [I+'verification/tomography/data.py',I+'utils.py'],
 [('marginal_counts','verification/tomography/data.py'),('combine_counts','verification/tomography/data.py'),('expectation_counts','verification/tomography/data.py'),('build_counts_dict_from_list','utils.py')])
p('C08','Tomography circuits realise exactly the labelled preparation and measurement',
 "Each generated state- or process-tomography circuit prepares precisely the state its preparation label names on the prepared qubits, runs the given circuit unchanged, and measures precisely the observable its measurement label names on the measured qubits into the tomography classical bits in list order, for every qubit selection and order and any registers already present. The set of circuits contains every required label combination exactly once, and names identify the labels.",
 ['inputs','configurations'],'all label combinations for Pauli/SIC and custom bases on up to 3 qubits, all qubit selections/orders, with and without existing classical registers',
 'tests only fit end results for a few circuits on the default qubits',
 [I+'verification/tomography/basis/circuits.py',I+'verification/tomography/basis/paulibasis.py',I+'verification/tomography/basis/sicbasis.py',I+'verification/tomography/basis/tomographybasis.py'],
 [('tomography_circuits','verification/tomography/basis/circuits.py'),('state_tomography_circuits','verification/tomography/basis/circuits.py'),('process_tomography_circuits','verification/tomography/basis/circuits.py')])
p('C09','State tomography reconstructs the prepared state',
 "From the outcome statistics of a complete set of state-tomography circuits the fitter returns the density matrix of the measured qubits, in the order in which they were listed, for every state, qubit selection and register layout; the result does not depend on how the experiments are split over result objects or ordered. For arbitrary (noisy, even inconsistent) counts the default fit is Hermitian, positive semidefinite and has the requested trace.",
 ['inputs','histories'],'exact statistics of all stabilizer states on up to 2 qubits and product/GHZ families on 3, all qubit orders, result splits, and all count tables from a small grid for the physicality part',
 'tests run a few simulated states with statistical tolerance',
 [I+'verification/tomography/fitters/state_fitter.py',I+'verification/tomography/fitters/base_fitter.py',I+'verification/tomography/fitters/lstsq_fit.py',I+'verification/tomography/fitters/cvx_fit.py'],
 [('StateTomographyFitter','verification/tomography/fitters/state_fitter.py'),('TomographyFitter','verification/tomography/fitters/base_fitter.py'),('lstsq_fit','verification/tomography/fitters/lstsq_fit.py')])
p('C10','Process tomography reconstructs the applied channel',
 "From the outcome statistics of a complete set of process-tomography circuits the fitter returns the Choi matrix of the channel between the prepared and the measured qubits, in listed order, for Pauli and SIC preparations, for unitary and non-unitary channels alike and independently of how experiments are split over results. For arbitrary counts the default fit is a positive semidefinite Choi matrix of the right trace, and trace preserving when the convex fit with that constraint is used.",
 ['inputs','histories'],'all 24 one-qubit Cliffords, Clifford products and entangling two-qubit gates, standard noise channels; qubit orders; result splits; small count-table grids',
 'tests run three simulated circuits with statistical tolerance',
 [I+'verification/tomography/fitters/process_fitter.py',I+'verification/tomography/fitters/base_fitter.py'],
 [('ProcessTomographyFitter','verification/tomography/fitters/process_fitter.py')])
p('C11','Gate set tomography linear inversion and gauge optimisation are exact',
 "From exact probabilities of gate-set-tomography circuits, linear inversion returns matrices that are jointly similar to the true transfer matrices of the gates (same gauge for gates, state and measurement), so every predicted circuit probability is reproduced, and gauge optimisation starting from them returns the ideal gate set when the device is noiseless. Circuits contain, for every gate and every pair of fiducials, the preparation fiducial, then the gate, then the measurement fiducial, each with its gates in the given order.",
 ['inputs','configurations'],'default and custom gate set bases, all gates and fiducial pairs, a family of noisy true gate sets with exact probabilities',
 'tests use one basis and sampled counts; some fail on current scipy',
 [I+'verification/tomography/basis/gatesetbasis.py',I+'verification/tomography/fitters/gateset_fitter.py',I+'verification/tomography/basis/circuits.py'],
 [('GateSetBasis','verification/tomography/basis/gatesetbasis.py'),('GatesetTomographyFitter','verification/tomography/fitters/gateset_fitter.py')])
p('C12','Noiseless randomized-benchmarking circuits return every qubit to its start',
 "For every pattern, length list, length multiplier, group, seed and interleaved element, each generated standard, interleaved, non-Clifford and purity benchmarking circuit is, without noise, the identity (up to the stated final rotations or X-type preparation) on the listed qubits and measures the pattern's qubits in pattern order, so the ground state is read with certainty. The announced lengths equal the number of group elements actually applied (times the multiplier), shorter circuits of a seed are prefixes of longer ones, interleaved circuits contain the given element after every random one, and equal seeds give equal circuits while different sequence positions are drawn independently.",
 ['inputs','configurations'],'all patterns on up to 4 qubits with group sizes 1-3, all short length lists and multipliers, all 1-qubit (and a generating set of 2-qubit) interleaved Cliffords, a range of seeds',
 'tests run a handful of patterns with one seed',
 [I+'verification/randomized_benchmarking/circuits.py',I+'verification/randomized_benchmarking/rb_groups.py'],
 [('randomized_benchmarking_seq','verification/randomized_benchmarking/circuits.py'),('RBgroup','verification/randomized_benchmarking/rb_groups.py')])
p('C13','CNOT-dihedral elements behave exactly as the unitaries they represent',
 "Every CNOT-dihedral element's matrix agrees up to global phase with the circuit it was built from or decomposes to, and composition, product, inverse (adjoint), conjugate, transpose, tensor (first operand on the lower qubits) and expand (the reverse) of elements give the element of the corresponding unitary operation; equality of elements coincides with equality of unitaries up to global phase. Circuits or operators containing gates outside the group are rejected, accepted ones are represented faithfully, and operations never modify their operands.",
 ['inputs','histories'],'all reachable elements for 1 qubit and 2 qubits (the complete groups) and bounded words for 3 and 4 qubits; all generators; all pairs for products on the small groups',
 'tests try random elements and a few gates',
 [I+'verification/randomized_benchmarking/dihedral.py'],[('CNOTDihedral','verification/randomized_benchmarking/dihedral.py'),('random_cnotdihedral','verification/randomized_benchmarking/dihedral.py')])
p('C14','RB fitters aggregate results correctly and report the documented error rates',
 "For standard, interleaved, purity and CNOT-dihedral benchmarking, the per-seed survival values are the exact relative frequencies (or purities) of each circuit, their mean and spread per length are the sample statistics, and all are independent of how results are split, repeated or ordered over calls. The fitted decay of exactly exponential data is that exponential, of other data the least-squares optimum weighted with the spreads (unweighted where a spread vanishes), and the reported error per Clifford, per gate, incoherent error, and interleaved bounds equal the documented functions of the decay parameters, with uncertainties obtained from those of the fit.",
 ['inputs','histories','configurations'],'all patterns with up to 3 groups, seeds <= 3, lengths <= 6, all splits/orders of results over add_data calls, grids of decay parameters',
 'tests compare with recorded fits for a few data sets',
 [I+'verification/randomized_benchmarking/fitters.py'],[('RBFitter','verification/randomized_benchmarking/fitters.py'),('InterleavedRBFitter','verification/randomized_benchmarking/fitters.py'),('PurityRBFitter','verification/randomized_benchmarking/fitters.py'),('CNOTDihedralRBFitter','verification/randomized_benchmarking/fitters.py')])
p('C15','RB gate counting and error-rate conversions match their definitions',
 "Gates per Clifford equal the number of occurrences of each basis gate on each qubit divided by the number of Cliffords including inverses; converting error per Clifford to error per gate and back with the documented formulas is consistent, and the coherence limit equals one minus the average gate fidelity of the relaxation channel with the given T1, T2 and gate length. Invalid qubits, gates or sizes are rejected.",
 ['inputs'],'all circuits of up to 3 gates over a small alphabet on up to 3 qubits, grids of counts, rates, T1/T2 and lengths',
 'tests check one example each',
 [I+'verification/randomized_benchmarking/rb_utils.py'],[('gates_per_clifford','verification/randomized_benchmarking/rb_utils.py'),('coherence_limit','verification/randomized_benchmarking/rb_utils.py'),('calculate_2q_epg','verification/randomized_benchmarking/rb_utils.py')])
p('C16','Quantum volume verdicts follow exactly from the measured heavy outputs',
 "Quantum-volume circuits act on exactly the listed qubits in listed order, carry matching names with and without measurement, and repeat for equal seeds. For every ideal state and every history of added results, the heavy outputs are exactly the bit strings above the median ideal probability, the reported heavy-output mean per depth is heavy shots over all shots of all trials with binomial error over trials, and a depth succeeds exactly when the mean exceeds two thirds with confidence above the two-sigma level.",
 ['inputs','histories','configurations'],'all qubit lists up to 4 qubits, ideal distributions from a grid (with ties), all small count tables, all splits of results over add_data calls',
 'tests use one simulated data set and check shapes',
 [I+'verification/quantum_volume/circuits.py',I+'verification/quantum_volume/fitters.py'],[('qv_circuits','verification/quantum_volume/circuits.py'),('QVFitter','verification/quantum_volume/fitters.py')])
p('C17','One-time padding never changes the corrected output of a circuit',
 "For every circuit and every random pad, the padded circuit's measured distribution, after the returned bitwise correction, equals the distribution of the original circuit, for cx and cz compilation, with or without a coupling map and for any assignment of qubits to classical bits. The parsed layers recombine to the original circuit, and correcting counts is a bijection that conserves shots.",
 ['inputs','programs'],'all circuits of up to 4 gates from a small alphabet on up to 3 qubits plus barriers, all pads (every random bit), all measurement maps',
 'tests use a single circuit and recorded results',
 [I+'verification/accreditation/qotp.py'],[('layer_parser','verification/accreditation/qotp.py'),('QOTP_fromlayers','verification/accreditation/qotp.py'),('QOTPCorrectCounts','verification/accreditation/qotp.py')])
p('C18','Accreditation traps return zero without noise and runs are accounted exactly',
 "Without noise every trap circuit of an accreditation run, after correction, reads all zeros with certainty for every random choice, the target sits at the announced position with its original output distribution, and traps have the two-qubit-gate layers of the target and, over the random choices, catch every Pauli error of the qubits after a two-qubit gate with probability at least one half, and every combination of Pauli errors at two places (one of them after a two-qubit gate) with at least one quarter, on which the bound rests. A run is accepted exactly when every trap reads zero, and after every history of runs the fitter's accepted count, outputs, bound (1.7/(traps+1)/(accepted fraction - theta), at most 1) and confidence (1-2exp(-2 theta^2 runs)) are those of that history alone; invalid runs (not single shot, differing or too few traps) are rejected.",
 ['inputs','histories','schedules'],'small target circuits, every random choice in trap generation, all histories of up to 4 accepted/rejected runs and several fitters',
 'tests check one circuit and recorded runs',
 [I+'verification/accreditation/circuits.py',I+'verification/accreditation/fitters.py'],[('AccreditationCircuits','verification/accreditation/circuits.py'),('AccreditationFitter','verification/accreditation/fitters.py')])
p('C19','Repetition code decoding corrects every correctable error pattern',
 "For a repetition code of distance d with T syndrome rounds, any pattern of at most (d-1)/2 bit flips on code qubits at any times combined with measurement flips of the same total weight bound is decoded to the encoded logical value, for both logical values (ancillas reset in all rounds but the last), also with weights which are scaled or learnt from results; with any weights the decoded value is that of a pairing of least total weight. The decoder's graph has a node for every syndrome element and an edge between exactly the elements that a single error can flip together, and logical error probabilities are the exact fraction of wrongly decoded shots.",
 ['inputs','fault_sequences'],'d in {3,4,5,7}, T in {1,2,3}, all fault patterns up to the correctable weight',
 'tests inject single errors for one code size and compare probabilities loosely',
 [I+'verification/topological_codes/circuits.py',I+'verification/topological_codes/fitters.py'],[('RepetitionCode','verification/topological_codes/circuits.py'),('GraphDecoder','verification/topological_codes/fitters.py')])
p('C20','Repetition code circuits and result processing expose the true syndrome changes',
 "The noiseless code circuit for each logical value yields only that value with zero syndromes, and a single Pauli-X (or measurement) fault at any place in the circuit changes at most two syndrome elements and yields precisely the processed string predicted by the stabiliser difference rule. Processing raw results rewrites every raw string to its logical and syndrome-change parts without losing shots, and lookup-table decoding (most frequent logical value in the training results for each string) and post-selection compute exactly the stated ratios for any tables.",
 ['inputs','fault_sequences'],'d up to 5, T up to 3, all single faults, all raw strings for small codes, small count tables',
 'tests look at two code sizes and fixed strings',
 [I+'verification/topological_codes/circuits.py',I+'verification/topological_codes/fitters.py'],[('RepetitionCode.process_results','verification/topological_codes/circuits.py'),('lookuptable_decoding','verification/topological_codes/fitters.py'),('postselection_decoding','verification/topological_codes/fitters.py')])
p('C21','Characterisation circuits implement their documented pulse sequences',
 "For all qubit lists, repetition counts, gate times, echo and oscillation settings, each T1, T2, T2*, ZZ, amplitude- and angle-calibration circuit consists on every listed qubit of exactly the documented gate sequence with the documented number of idle gates, leaves other qubits alone, measures qubit k of the list into bit k, carries the name under which the matching fitter finds its data, and the returned x-axis values and frequencies are the corresponding delays or repetition counts.",
 ['inputs','configurations'],'all qubit lists/orders up to 3 of 4 qubits, all small gate-count lists, echo counts 1-4, both echo phases, oscillation counts, control/spectator choices',
 'tests build one circuit list and simulate or fit with tolerances',
 [I+'characterization/coherence/circuits.py',I+'characterization/hamiltonian/circuits.py',I+'characterization/gates/circuits.py',I+'characterization/characterization_utils.py'],
 [('t1_circuits','characterization/coherence/circuits.py'),('t2_circuits','characterization/coherence/circuits.py'),('zz_circuits','characterization/hamiltonian/circuits.py'),('anglecal_cx_circuits','characterization/gates/circuits.py')])
p('C22','Characterisation fitters use each qubit\'s own frequencies and recover parameters',
 "For every set of counts, list of qubits and history of added results, each fitter's data for qubit k and delay j is the relative frequency of the expected outcome on that qubit's own bit over all results containing the circuit, with its binomial standard error, and does not depend on how results are split or ordered. When the data follow the documented curve exactly, the fitted parameters, characteristic times, ZZ rates and angle errors equal the true ones for every qubit and series; otherwise they are the weighted least-squares optimum within the given bounds, with its standard errors, and follow every addition of data.",
 ['inputs','histories'],'all splits and orders of results, up to 3 qubits, count grids, parameter grids for each fitter',
 'tests run one simulated or recorded data set per fitter with wide tolerance',
 [I+'characterization/fitters.py',I+'characterization/coherence/fitters.py',I+'characterization/hamiltonian/fitters.py',I+'characterization/gates/fitters.py'],
 [('BaseFitter','characterization/fitters.py'),('T1Fitter','characterization/coherence/fitters.py'),('ZZFitter','characterization/hamiltonian/fitters.py'),('AmpCalFitter','characterization/gates/fitters.py')])
p('C23','Rabi and DRAG calibration average IQ data with the right weights',
 "For averaged and single-shot level-1 data, every split of the shots over results yields the same per-qubit signal: the shot-weighted mean IQ point of each schedule, centred and projected on the direction of largest spread, with the spread of its single shots as error; fitting exact data recovers the pi amplitude and DRAG coefficient. Mixed or wrong-level data is rejected, and calibration schedules play the requested pulses on the requested drive channels followed by the measurement.",
 ['inputs','histories'],'grids of IQ tables on up to 2 qubits, all splits/orders over results with different shot numbers, both return modes',
 'tests do not cover level-1 fitters at all',
 [I+'characterization/fitters.py',I+'characterization/calibrations/fitters.py',I+'characterization/calibrations/pulse_schedules.py'],
 [('IQFitter','characterization/fitters.py'),('RabiFitter','characterization/calibrations/fitters.py'),('DragFitter','characterization/calibrations/fitters.py'),('rabi_schedules','characterization/calibrations/pulse_schedules.py')])
p('C24','IQ discrimination labels shots by the calibration they were trained on',
 "A discriminator trains on exactly the calibration shots of its schedules, each labelled with its expected state and restricted to the masked qubits, for every history of constructed and added calibration results, with or without explicit schedules and standardisation. Filtering a level-1 result relabels every shot of every experiment in order, keeps per-experiment shot counts and produces counts whose keys are the discriminated states in the inferred base, leaving the input unmodified.",
 ['inputs','histories','configurations'],'all qubit masks on up to 3 qubits, all orders of calibration/non-calibration experiments, all add_data histories up to 3, all labels up to base 3',
 'tests train once on two states and compare accuracies',
 [I+'measurement/discriminator/discriminators.py',I+'measurement/discriminator/iq_discriminators.py',I+'measurement/discriminator/filters.py'],
 [('IQDiscriminationFitter','measurement/discriminator/iq_discriminators.py'),('DiscriminationFilter','measurement/discriminator/filters.py')])
p('C25','Everything logged to file can be read back, filtered exactly as asked',
 "For every configuration and every sequence of logging calls, each entry logged while file logging is enabled appears exactly once and in order in the rows read back, with its key/value pairs intact, until rotation deletes whole oldest files, also when several loggers and several threads log at the same time; entries logged while disabled never appear in the file, which the logger says once, and no entry is ever written to the console. Reading with key or date limits returns exactly the rows and pairs that satisfy them, and configuration settings take effect as written.",
 ['histories','configurations','inputs','schedules'],'all operation sequences up to depth 5 over log/enable/disable/get-logger/other-logger/read with small values, all configuration combinations, all filters over a small time grid, all interleavings of 2-3 threads with up to 3 preemptions',
 'tests check a few single calls on a fake file system',
 [I+'logging/ignis_logging.py'],[('IgnisLogger.log_to_file','logging/ignis_logging.py'),('IgnisLogging','logging/ignis_logging.py'),('IgnisLogReader.read_values','logging/ignis_logging.py')])
p('C26','Entanglement circuits prepare GHZ states on any connected device',
 "For every number of qubits and every connected coupling map, the linear and the parallelised generators produce a GHZ state on the requested number of distinct device qubits using only coupled pairs, and their multiple-quantum-coherence, parity-oscillation and parametrised variants produce exactly the documented phase-dependent outcome probabilities for every phase. The analysis helpers return the exact parity-weighted total of a table of counts or probabilities and the fidelity figures of the given raw and mitigated data, each from its own data.",
 ['inputs','configurations'],'n up to 6 for linear circuits, all connected graphs on up to 5 nodes with all directions for layouts, phase grids, all small counts tables',
 'the only test file does not even import here; otherwise one backend',
 [I+'verification/entanglement/linear.py',I+'verification/entanglement/parallelize.py',I+'verification/entanglement/analysis.py'],
 [('get_ghz_simple','verification/entanglement/linear.py'),('BConfig','verification/entanglement/parallelize.py'),('composite_pauli_z_expvalue','verification/entanglement/analysis.py')])
p('C27','Updated pulse gates act as the gates of the calibrated pulse',
 "For every list of qubits, DRAG parameters or pi/2 schedules per qubit of the device, and every set of control channels which share the frame of a qubit, updating the instruction map makes u2 and u3 of exactly the listed qubits consist of that qubit's pi/2 pulse (once, twice) on its drive channel with phase shifts before, between and after, such that for all angles the sequence is u2(P0, P1) or u3(P0, P1, P2) when the pulse is an X rotation by pi/2; the control channels of the frame get the same shifts at the same times and everything else in the map is unchanged. Extracting the pulse parameters returns, for the listed qubits in order, the DRAG parameters which reproduce the pi/2 pulse of the device, so that updating with them keeps the pulses.",
 ['inputs','configurations'],'devices of 1-3 and 12 qubits, frames of 1-3 channels, all ordered qubit lists, all angles of a grid, grid of DRAG parameters',
 'the only test calls the update once and checks nothing',
 [I+'characterization/calibrations/ibmq_utils.py'],
 [('update_u_gates','characterization/calibrations/ibmq_utils.py'),('get_single_q_pulse','characterization/calibrations/ibmq_utils.py')],['instruction map'])
p('C28','Plots show exactly the data, fits and matrices they are asked for',
 "For every fitter with results, every qubit, series, pattern index, depth, trial, group or ordered list of qubits asked for, and whether data come as lists or arrays: RB plots contain the survival of every seed, the mean with its spread over the seeds, the fitted decay and (only if requested) a label with the fitted numbers; two-experiment RB plots contain both data sets and both fitted curves under their own names; quantum volume plots contain the measured and ideal heavy output probabilities with two-sigma bars per qubit list, the cumulative mean and every trial, or measured and ideal probability of every bit string of one trial with its median and heavy output probability; assignment, mitigation and calibration matrix plots show the requested matrix with the state labels of its rows and columns; characterisation plots show data, error bars and fit of the requested qubit and series, named after that qubit and with its fitted time (or pi amplitude); discriminator plots show each qubit's training points by expected state, the misclassified ones and new data on that qubit's axes. Plots go to the given Axes (or to a new figure), other figures and the data stay untouched, they are shown exactly when requested, and requests for unknown qubits, missing calibrations or too few axes are rejected.",
 ['inputs','configurations'],'all plot functions x all indices of small fitters x all options; all sets of unmeasured bit strings of 2-3 qubits',
 'tests call one or two plot functions and never look at what is drawn',
 [I+'verification/randomized_benchmarking/fitters.py',I+'verification/quantum_volume/fitters.py',I+'mitigation/expval/base_meas_mitigator.py',I+'mitigation/measurement/fitters.py',I+'characterization/fitters.py',I+'measurement/discriminator/iq_discriminators.py'],
 [('RBFitter.plot_rb_data','verification/randomized_benchmarking/fitters.py'),('QVFitter.plot_qv_trial','verification/quantum_volume/fitters.py'),('plot_assignment_matrix','mitigation/expval/base_meas_mitigator.py'),('BaseCoherenceFitter.plot','characterization/fitters.py'),('IQDiscriminationFitter.plot','measurement/discriminator/iq_discriminators.py')],['figures'])
p('C29','Independent uses do not interfere, and inputs stay as they were',
 "The library keeps no hidden state between uses (the logging configuration of the logging module aside): every generator, fitter, filter, mitigator, basis, code, decoder or utility gives, with given inputs and seeds, the same answers whatever other parts of the library were used before or in between in the same process, including another object of its own kind with other or equal inputs, and an existing object answers the same after any other object was created, asked or given more data. Nothing a user passes in (results, counts, circuits, lists of qubits, labels, patterns, lengths, matrices, parameters, dictionaries of gates) is changed by creating an object, asking it or adding data to it, so that two objects made from the same inputs are independent of each other.",
 ['histories'],'all ordered pairs (thorough: also triples) of uses from an alphabet of 98 over all modules but logging, each history in its own process; all uses twice, with shared inputs and with data added to one of two objects',
 'each test makes one object in a fixed order; caches, mutable defaults, class attributes and modified inputs only show in combinations of uses',
 [I+'verification',I+'mitigation',I+'characterization',I+'measurement',I+'utils.py'],
 [('CompleteExpvalMeasMitigator._mitigation_mats','mitigation/expval/complete_mitigator.py'),('GateSetBasis.add_gate','verification/tomography/basis/gatesetbasis.py'),('GraphDecoder.__init__','verification/topological_codes/fitters.py'),('randomized_benchmarking_seq','verification/randomized_benchmarking/circuits.py'),('BaseFitter.__init__','characterization/fitters.py'),('MeasurementFilter.apply','mitigation/measurement/filters.py')],['histories','shared state'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
print(len(P))
