#!/usr/bin/env python3
"""writes properties.jsonl (source of the property texts) and MANIFEST.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'qiskit/ignis/'
MM, EV, TO = I + 'mitigation/measurement/', I + 'mitigation/expval/', I + 'verification/tomography/'
RB, QV, TC, AC = (I + 'verification/randomized_benchmarking/', I + 'verification/quantum_volume/',
                  I + 'verification/topological_codes/', I + 'verification/accreditation/')
CH, DI, EN, LO = (I + 'characterization/', I + 'measurement/discriminator/', I + 'verification/entanglement/', I + 'logging/')
P = []


def prop(id, title, statement, over, q, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'Readout calibration circuits prepare and measure exactly the labelled states',
     'Calibration circuits for readout mitigation come one per required basis state; each flips exactly the qubits whose bit in its label is 1 and then measures every calibrated qubit into its own classical bit, for the complete and for the grouped (tensored) method. Every state label is produced once, in the order returned with the circuits, and the first qubit of a list is the rightmost character.',
     ['inputs'], 'all qubit lists, qubit groupings, registers and circuit labels',
     'Tests run two or three fixed qubit lists and check counts; no test covers arbitrary groupings, unordered qubit lists or registers larger than the calibrated set.',
     [MM + 'circuits.py'], [('complete_meas_cal', MM + 'circuits.py'), ('tensored_meas_cal', MM + 'circuits.py'), ('count_keys', TO + 'data.py')])
prop('C02', 'Readout calibration matrices are the measured conditional frequencies',
     'Every entry of a readout calibration matrix equals the number of shots measured in the row state divided by the number of shots prepared in the column state, accumulated over all added results and over the other groups, so each column with data sums to one. Restricting a calibration to a subset of qubits gives the marginal matrix of those qubits, and the readout fidelity is the mean probability of measuring the prepared group.',
     ['inputs', 'histories'], 'all counts, label orders, groupings, numbers and orders of added results, qubit subsets',
     'Tests compare a few stored results; they never vary label order, number of results, partially empty data or qubit subsets.',
     [MM + 'fitters.py'], [('TensoredMeasFitter._build_calibration_matrices', MM + 'fitters.py'), ('CompleteMeasFitter.subset_fitter', MM + 'fitters.py'), ('readout_fidelity', MM + 'fitters.py')])
prop('C03', 'Readout correction inverts the calibrated noise and keeps the data form',
     'Applying a readout filter to data produced by the calibrated noise returns the noiseless data, for count dictionaries, vectors, stacked vectors and result objects, in the state-label order of the calibration, and without changing the input. Least-squares correction additionally returns no negative counts and preserves the number of shots; the grouped filter equals the complete filter with the tensor product of its matrices.',
     ['inputs'], 'all nonsingular calibration matrices, label orders, groupings and data vectors',
     'Tests apply the filter to a handful of stored counts with one or two matrices.',
     [MM + 'filters.py'], [('MeasurementFilter.apply', MM + 'filters.py'), ('TensoredFilter.apply', MM + 'filters.py')])
prop('C04', 'Expectation values and errors estimated from counts are the exact estimators',
     'The expectation value of a diagonal observable estimated from counts equals the shot-weighted mean of its eigenvalues, with standard deviation sqrt((E[O^2]-E[O]^2)/shots), on exactly the classical bits asked for and in the order asked for. The probability vector of counts has the relative frequency of each outcome, its bits ordered by the qubits they belong to, and the counts are not modified.',
     ['inputs'], 'all counts, observables, selections and orders of bits and qubits',
     'Tests use one circuit with a few observables and a loose numerical tolerance; orders of bits are only tested with symmetric observables.',
     [EV + 'utils.py'], [('expectation_value', EV + 'utils.py'), ('counts_probability_vector', EV + 'utils.py'), ('_expval_with_stddev', EV + 'utils.py')])
prop('C05', 'Mitigated expectation values undo the calibrated assignment noise',
     'With a fitted complete or tensored mitigator, the expectation value of counts produced by the assignment noise equals the value of the noiseless distribution, for any observable and for any measured qubits in any order. The assignment matrix fitted from calibration counts is the conditional frequency of outcomes, the mitigation matrix is its inverse, and fidelity, overhead and error bound are computed from them; calibration circuits prepare the states their metadata name.',
     ['inputs'], 'all single-qubit noise rates (and correlated matrices for the complete method), distributions, observables, qubit and bit orders, calibration counts',
     'Tests run one noise model with tolerance 0.05 and parity observables on four qubits.',
     [EV + 'complete_mitigator.py', EV + 'tensored_mitigator.py', EV + 'base_meas_mitigator.py', EV + 'utils.py', EV + 'fitter.py', EV + 'circuits.py'],
     [('CompleteExpvalMeasMitigator', EV + 'complete_mitigator.py'), ('TensoredExpvalMeasMitigator', EV + 'tensored_mitigator.py'), ('assignment_matrix', EV + 'utils.py'), ('ExpvalMeasMitigatorFitter', EV + 'fitter.py')])
prop('C06', 'CTMP mitigation is the inverse of the Markov noise it was fitted to',
     'The generator matrix of a CTMP mitigator is the rate-weighted sum of its transitions (columns sum to zero), the assignment and mitigation matrices are its exponential and inverse exponential, and the sampled mitigated expectation value is an unbiased estimate of the noiseless value. Fitting exact calibration data of such a noise on one or two qubits, or of uncorrelated noise on more, recovers its rates; otherwise the fitted rates are those of the logarithms of the pairwise assignment matrices conditioned on no error elsewhere.',
     ['inputs'], 'all generator sets, rates, qubit subsets and orders, counts, observables and seeds',
     'Tests compare with the identity to one decimal and test sampling statistically on one matrix.',
     [EV + 'ctmp_mitigator.py', EV + 'ctmp_fitter.py', EV + 'ctmp_generator_set.py'],
     [('CTMPExpvalMeasMitigator', EV + 'ctmp_mitigator.py'), ('fit_ctmp_meas_mitigator', EV + 'ctmp_fitter.py'), ('standard_generator_set', EV + 'ctmp_generator_set.py')])
prop('C07', 'Marginalising, combining and correlating counts conserves every shot',
     'Marginal counts assign every shot to the outcome of the selected bits, combined counts are the key-wise sum, and correlation data are the signed sums of the marginal counts; totals are preserved and the arguments are left unchanged. Key lists contain every bit string once in numerical order.',
     ['inputs', 'histories'], 'all counts dictionaries (including multi-register keys), bit selections and sequences of combinations',
     'No test varies the counts or the selected bits beyond two or three examples.',
     [TO + 'data.py', I + 'utils.py'],
     [('marginal_counts', TO + 'data.py'), ('combine_counts', TO + 'data.py'), ('expectation_counts', TO + 'data.py'), ('count_keys', TO + 'data.py'), ('build_counts_dict_from_list', I + 'utils.py')])
prop('C08', 'Tomography circuits implement exactly the operators the fitters assume',
     'Every state and process tomography circuit prepares, applies the circuit under test, and measures in the basis that its name states, with preparation operators and measurement effects equal to those the fitter uses for that name, for Pauli and SIC bases on any selected qubits. The set of circuits is the full product of the requested labels, each once.',
     ['inputs', 'programs'], 'all circuits under test, numbers and orders of prepared and measured qubits, label sets and bases',
     'Tests reconstruct a few specific states; a consistent swap of two settings or an error at one label combination need not show.',
     [TO + 'basis/circuits.py', TO + 'basis/paulibasis.py', TO + 'basis/sicbasis.py', TO + 'basis/tomographybasis.py'],
     [('_tomography_circuits', TO + 'basis/circuits.py'), ('pauli_preparation_circuit', TO + 'basis/paulibasis.py'), ('TomographyBasis', TO + 'basis/tomographybasis.py')])
prop('C09', 'Tomography fits reconstruct the true state or channel and are physical',
     'From the exact outcome probabilities of an informationally complete set of tomography circuits, state and process tomography return the density matrix or Choi matrix of the prepared state or channel, independent of the order in which results are added and of which qubits were measured. The returned matrix is positive and has the requested trace whenever these constraints are requested.',
     ['inputs', 'histories'], 'all states, channels, qubit selections, result orders, fitting methods and weightings',
     'Tests fit a few states and gates with finite shots and a fidelity threshold.',
     [TO + 'fitters/base_fitter.py', TO + 'fitters/state_fitter.py', TO + 'fitters/process_fitter.py', TO + 'fitters/lstsq_fit.py', TO + 'fitters/cvx_fit.py'],
     [('TomographyFitter', TO + 'fitters/base_fitter.py'), ('lstsq_fit', TO + 'fitters/lstsq_fit.py'), ('make_positive_semidefinite', TO + 'fitters/lstsq_fit.py'), ('cvx_fit', TO + 'fitters/cvx_fit.py')])
prop('C10', 'Gate set tomography circuits and linear inversion determine the gate set',
     'Gate set tomography runs every gate between every pair of preparation and measurement sequences, and from the exact outcome probabilities its linear inversion returns the gate set up to a similarity transformation. The matrices the basis assigns to its sequences are those of the circuits it generates, and the Pauli representation of a gate acts on Pauli vectors as the gate does on states.',
     ['inputs'], 'all single-qubit gate sets, noise channels and preparation/measurement sequences',
     'Tests fit five simulated gate sets and need an optimiser; intermediate matrices are not compared.',
     [TO + 'basis/gatesetbasis.py', TO + 'fitters/gateset_fitter.py', TO + 'basis/circuits.py'],
     [('GateSetBasis', TO + 'basis/gatesetbasis.py'), ('GatesetTomographyFitter.linear_inversion', TO + 'fitters/gateset_fitter.py'), ('GaugeOptimize', TO + 'fitters/gateset_fitter.py')])
prop('C11', 'Randomized benchmarking sequences compose to the identity',
     'Every randomized benchmarking circuit, of any group, pattern, length multiplier and interleaved element, is the identity up to phase on all benchmarked qubits before its measurement, has the requested number of group elements per length, measures pattern qubits into the stated bits, and is named by its length and seed. The elements are drawn afresh for every circuit and reproducibly from the random seed given. Interleaved sequences repeat the original random elements with the interleaved element after each; purity circuits differ only in the final measurement rotations.',
     ['inputs', 'programs'], 'all patterns, lengths, seeds, multipliers, groups and interleaved elements',
     'Tests check a few patterns and seeds; most only check gate names.',
     [RB + 'circuits.py', RB + 'rb_groups.py', RB + 'dihedral.py'],
     [('randomized_benchmarking_seq', RB + 'circuits.py'), ('RBgroup', RB + 'rb_groups.py'), ('replace_q_indices', RB + 'circuits.py')])
prop('C12', 'CNOT-dihedral elements form a group faithfully represented by circuits',
     'The CNOT-dihedral elements compose, invert, tensor and convert to and from circuits exactly as the unitaries they represent: the product acts as the composition of circuits, an element times its inverse is the identity, and decomposing then rebuilding gives the same element. The phase polynomial of an element evaluates to the phases of its circuit.',
     ['inputs', 'programs'], 'all circuits over the generating gates and all pairs of elements',
     'Tests enumerate small fixed lists of gates and random elements on one or two qubits.',
     [RB + 'dihedral.py'], [('CNOTDihedral', RB + 'dihedral.py'), ('SpecialPolynomial', RB + 'dihedral.py'), ('decompose_cnotdihedral', RB + 'dihedral.py')])
prop('C13', 'Randomized benchmarking fits use the true survival statistics',
     'Randomized benchmarking fitters compute for every seed, pattern and length the fraction of shots in the ground state (or the purity), its mean and standard deviation over seeds, and the error per group element, gate error and bounds from the fitted decay by the documented formulas. Exact exponential data return the exact decay, and adding data in pieces equals adding it at once.',
     ['inputs', 'histories'], 'all counts, patterns, numbers of seeds, lengths and orders of adding data',
     'Tests compare four stored result files with stored numbers.',
     [RB + 'fitters.py'], [('RBFitter', RB + 'fitters.py'), ('InterleavedRBFitter', RB + 'fitters.py'), ('PurityRBFitter', RB + 'fitters.py'), ('CNOTDihedralRBFitter', RB + 'fitters.py')])
prop('C14', 'Error-budget utilities of randomized benchmarking follow their formulas',
     'The gate counts per group element, coherence-limited errors, and the conversions between error per group element, error per gate and depolarising parameters equal their documented formulas, are inverse to each other where stated, and never mix qubits or gates.',
     ['inputs'], 'all gate counts, error rates, coherence times, gate lengths and transpiled circuit collections',
     'Tests check one numeric example per formula.',
     [RB + 'rb_utils.py'], [('coherence_limit', RB + 'rb_utils.py'), ('calculate_1q_epg', RB + 'rb_utils.py'), ('calculate_2q_epg', RB + 'rb_utils.py'), ('gates_per_clifford', RB + 'rb_utils.py')])
prop('C15', 'Quantum volume circuits are models of the stated size, scored exactly',
     'A quantum volume trial consists of the model circuit on exactly the listed qubits, its measurement in list order, and the same circuit without measurement for the ideal simulation. The fitter reports for each depth the fraction of shots in outputs whose ideal probability exceeds the median, its mean and binomial error over trials, and success exactly when the mean minus two errors exceeds two thirds with the documented confidence.',
     ['inputs', 'histories'], 'all qubit lists, trial numbers, seeds, ideal distributions, counts and orders of adding data',
     'Tests use one stored result and fixed lists of consecutive qubits.',
     [QV + 'circuits.py', QV + 'fitters.py'], [('qv_circuits', QV + 'circuits.py'), ('QVFitter', QV + 'fitters.py')])
prop('C16', 'Repetition code circuits encode, extract and report true syndromes',
     'A repetition code circuit with any distance and number of rounds prepares the logical value, measures each parity of neighbouring code qubits once per round and finally all code qubits, so noiseless runs give trivial syndromes and the encoded value. Processed results show, for any error pattern, exactly the changes of syndrome between consecutive rounds, and conserve the counts.',
     ['inputs', 'programs', 'fault_sequences'], 'all distances, numbers of rounds, reset options, basis choices and raw outcomes or inserted errors',
     'Tests insert single errors for distances up to a few and check that pairs of syndromes appear.',
     [TC + 'circuits.py'], [('RepetitionCode', TC + 'circuits.py'), ('process_results', TC + 'circuits.py')])
prop('C17', 'Decoding corrects every error pattern within the code distance',
     'The decoder turns processed results into corrected logical outcomes that equal the encoded value whenever fewer than half of the code qubits suffered an error, and conserves the number of shots. Its syndrome graph contains every pair of detection events a single fault can cause, and logical error probabilities are the fractions of shots with the wrong value.',
     ['inputs', 'fault_sequences'], 'all error patterns, distances, rounds and counts',
     'Tests decode a handful of strings on small codes.',
     [TC + 'fitters.py'], [('GraphDecoder', TC + 'fitters.py'), ('lookuptable_decoding', TC + 'fitters.py'), ('postselection_decoding', TC + 'fitters.py')])
prop('C18', 'Accreditation circuits are one-time-pad encryptions of target and traps',
     'Every accreditation run hides the target circuit at a random position among trap circuits of identical shape; removing the returned one-time pad from the noiseless output of the target gives the output distribution of the original circuit, and from every trap gives all zeros.',
     ['inputs', 'programs'], 'all target circuits of the accepted form, numbers of traps and random choices',
     'Tests run two small circuits and check one acceptance.',
     [AC + 'qotp.py', AC + 'accred_circuits.py' if False else AC + 'circuits.py'], [('AccreditationCircuits', AC + 'circuits.py'), ('QOTP', AC + 'qotp.py')])
prop('C19', 'Accreditation accepts exactly the runs whose traps succeed and bounds them',
     'A run is accepted exactly when all of its traps return zeros after removing the one-time pad, the collected target outputs are those of the accepted runs with the pad removed, and the reported bound and confidence follow the published formulas for the data appended so far. Inconsistent data are rejected.',
     ['inputs', 'histories'], 'all outcome strings, pads, trap numbers and sequences of appended runs',
     'Tests append stored results for two circuits.',
     [AC + 'fitters.py'], [('AccreditationFitter', AC + 'fitters.py')])
prop('C20', 'Characterisation circuits realise the stated delays, echoes and angles',
     'Each coherence, calibration, ZZ and Hamiltonian circuit applies exactly the stated preparation, number of delay gates or gate repetitions, and measurement to each listed qubit, and the returned x axis is the physical time, angle or repetition number those circuits realise.',
     ['inputs'], 'all delay lists, gate times, qubit lists, oscillation numbers, echo counts and repetition numbers',
     'Tests only count circuits or run one fixed schedule.',
     [CH + 'coherence/circuits.py', CH + 'calibrations/ibmq_utils.py', CH + 'gates/circuits.py', CH + 'hamiltonian/circuits.py'],
     [('t1_circuits', CH + 'coherence/circuits.py'), ('ampcal_1Q_circuits', CH + 'gates/circuits.py'), ('zz_circuits', CH + 'hamiltonian/circuits.py')])
prop('C21', 'Characterisation fits are made on the true survival probabilities',
     'Characterisation fitters compute, for every qubit, series and x value, the fraction of shots in which that qubit gave the expected outcome with its binomial error, irrespective of other measured bits, of how results are split and added, and fit the documented model so that noiseless model data return their parameters.',
     ['inputs', 'histories'], 'all counts, qubit lists, measured bits, numbers of results and model parameters',
     'Tests fit four stored files.',
     [CH + 'fitters.py', CH + 'coherence/fitters.py', CH + 'gates/fitters.py', CH + 'hamiltonian/fitters.py'],
     [('BaseFitter', CH + 'fitters.py'), ('T1Fitter', CH + 'coherence/fitters.py'), ('AmpCalFitter', CH + 'gates/fitters.py'), ('ZZFitter', CH + 'hamiltonian/fitters.py')])
prop('C22', 'IQ discrimination classifies each shot by its own data and conserves shots',
     'A discriminator trained on calibration results turns every single shot of IQ data into the state string of its own qubits, in qubit order, so that filtered results have one outcome per shot and counts equal to the numbers of those outcomes. Training data pair every shot with the state its calibration schedule prepared, and scaling and fitting do not depend on unrelated experiments.',
     ['inputs', 'histories'], 'all IQ data, qubit masks, calibration sets, standardisation options and orders of adding data',
     'Tests use one stored data set with separated clusters.',
     [DI + 'discriminators.py', DI + 'iq_discriminators.py', DI + 'filters.py'],
     [('BaseDiscriminationFitter', DI + 'discriminators.py'), ('IQDiscriminationFitter', DI + 'iq_discriminators.py'), ('DiscriminationFilter', DI + 'filters.py')])
prop('C23', 'Entanglement circuits make GHZ states and the analysis reads them correctly',
     'Every entanglement circuit, linear or tree-like for any coupling and with or without rotations, prepares the GHZ state on its qubits with the stated phases before measuring them in order; trees entangle only connected qubits, each control being entangled before, in steps on disjoint pairs. And the analysis functions return the ordered counts, parities, Fourier components, fidelities and bounds of the raw and of the mitigated data given.',
     ['inputs'], 'all numbers of qubits, coupling maps, rotation angles and counts',
     'The only test runs the linear circuits of one size.',
     [EN + 'linear.py', EN + 'parallelize.py', EN + 'analysis.py'],
     [('get_ghz_simple', EN + 'linear.py'), ('BConfig', EN + 'parallelize.py'), ('ordered_list_generator', EN + 'analysis.py')])
prop('C24', 'Logged experiment records are read back exactly and filtered exactly',
     'Every set of key/value pairs logged while file logging is enabled is written once, as one record with its time, to the configured log file, and the reader returns it with the same keys and value texts (lists, texts with spaces and values of several lines included) from all rotated files. Filters return exactly the pairs with the given keys and exactly the records between the given times, both included. The configuration file is applied as given (path, enabling, size, rotations), enabling and disabling in code override it, and disabled logging writes nothing.',
     ['inputs', 'histories', 'configurations'], 'all keys and values (texts that do not themselves imitate the record format), sequences of requests, enabling, disabling and logging, filter combinations and configurations',
     'Tests write one record per test and count the rows of one filter.',
     [LO + 'ignis_logging.py'],
     [('IgnisLogger', LO + 'ignis_logging.py'), ('IgnisLogReader', LO + 'ignis_logging.py'), ('IgnisLogging', LO + 'ignis_logging.py')])

NA = {}
LEVEL = {}
NOTES = {}
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, ROOT)
sys.path.insert(0, '/repo')
import importlib


def note(i):
    reg = importlib.import_module('contracts.' + i.lower()).reg
    by = {'U': [], 'F': [], 'S': [], 'B': []}
    for h in reg.harnesses:
        by[h.mode].append(h.name)
    t = ['Obligations are generated on every run by executing the real functions on symbolic inputs and discharged by z3 or by rational-function normal form.']
    if by['U'] or by['F']:
        t.append('Proved without size bound: %s.' % ', '.join(by['U'] + by['F']))
    if by['S']:
        t.append('Proved for every content at the listed sizes only (bounded in size): %s.' % ', '.join(by['S']))
    if by['B']:
        t.append('Run-time evaluation of the contract only (bounded stand-in, not counted as proved): %s.' % ', '.join(by['B']))
    t.append('Floats are reals. Assumed: %s.' % '; '.join(reg.assumptions))
    return ' '.join(t)


for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/' + f):
            print('missing anchor', x['id'], f, file=sys.stderr)
    for m in x['anchors']['mechanism']:
        if not os.path.exists('/repo/' + m['where']):
            print('missing anchor', x['id'], m['where'], file=sys.stderr)
    x['anchors']['files'] = sorted(set(x['anchors']['files']))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
checks, na = [], []
for x in P:
    i = x['id']
    if not os.path.exists(os.path.join(ROOT, 'contracts', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                   'thorough_cmd': './check %s --tier thorough' % i,
                   'technique': 'contract-based deductive verification (pyvc obligations on the real functions, z3); run-time contract evaluation where labelled bounded',
                   'level': LEVEL.get(i, 'proof'),
                   'level_note': note(i)})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import the unmodified working tree', 'source_commits': []}},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
