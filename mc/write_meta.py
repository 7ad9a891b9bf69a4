"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


QT = 'qmix/qtcurrent.py'
HB = 'qmix/harmonic_balance.py'
CC = 'qmix/circuit.py'
RF = 'qmix/respfn.py'
MF = 'qmix/mathfn/'
EX = 'qmix/exp/'

prop('C01', 'Tunneling currents equal the multi-tone spectral-domain current',
     'For every drive of the junction with one to four tones and any number of harmonics, the currents reported at dc and at every mixing product equal the ones of multi-tone spectral-domain analysis: the time-dependent tunneling current of the applied voltage, as a phasor at that frequency. This holds for every response function, bias voltage, pattern of excited signals, drive level within the validity of the summation limits, and every form in which the limits may be given.',
     ['inputs', 'configurations'], 'all configurations of tones x harmonics x frequency set x excitation pattern x drive level x response function x summation-limit form in the bounds; every mixing product; every bias point',
     'Tests compare a handful of one- to four-tone cases with each other or with stored data; which index of a 4-dimensional sum is wrong for which product depends on the configuration.',
     [QT], [('phase factor coefficients and their convolution', QT + ': calculate_phase_factor_coeff, _convolve_coefficients'), ('one summation routine per number of tones', QT + ': _current_coeff_1_tone .. _current_coeff_4_tones'), ('response function matrix', QT + ': interpolate_respfn')],
     ['return value of qtcurrent'], 'exhaustive bounded exploration of configurations of the real code against an independent torus model',
     'The torus model (FFT over the phases of the tones, no Bessel functions) is validated in every run against a brute-force time-domain model. Trusts NumPy/SciPy; drive levels are those at which the limits of the sums do not cut anything visible.')

prop('C02', 'Equivalent descriptions of one drive give the same currents',
     'Renumbering the tones, adding tones or harmonics that carry no voltage, or writing a harmonic as a separate tone does not change the physics, so it must not change any reported current.',
     ['inputs', 'histories'], 'all sequences of description changes up to the depth bound from each initial drive',
     'Tests compare a few pairs of one- and two-tone descriptions; the routine differs per number of tones, and each permutation uses other index arithmetic.',
     [QT, CC], [('separate code path per number of tones', QT + ': _current_1_tone .. _current_4_tones')],
     ['return value of qtcurrent'], 'explicit-state search over description changes of the same drive, executed on the real code', 'Differential: every reachable description is compared with the simplest one, which C01 ties to an independent model.')

prop('C03', 'Time shift, reversal, linearity and no-drive symmetries hold',
     'Shifting the time origin of a tone rotates each current phasor by exactly its order in that tone; reversing bias and drive conjugates/negates the currents as the odd I-V curve demands; currents are linear in the response function; without drive only the dc current of the I-V curve flows.',
     ['inputs', 'configurations'], 'all phase alphabets per tone, all products within the order limit, 1-4 tones, 1-3 harmonics, several response functions',
     'A wrong conjugation or a wrong sign of one index is invisible for the real-valued, cosine-phase drives used by the tests.',
     [QT, RF], [('phase factors and conjugate response function', QT + ': _current_coeff_*'), ('odd I-V curve, even KK transform', RF + ': resp, resp_conj')],
     ['return value of qtcurrent'], 'exhaustive bounded exploration; relations between states of the real code', 'Exact relations to rounding error, no reference implementation needed.')

prop('C04', 'Requested output frequencies select the right currents',
     'Each requested frequency yields the total current phasor at that frequency: the sum of all mixing products that coincide there (to the documented four decimals), zero for a frequency that no product reaches; a single number gives a single row and a list one row per entry in the order of the request, whatever the container or number type, and however often an entry repeats.',
     ['inputs'], 'all request lists up to the length bound over an alphabet of products, dc, near-misses and non-products, in nine container/number types, for five circuits',
     'Tests request a single frequency or the full list of tones; duplicates, order, coincident products, rounding ties and number types are never combined.',
     [QT], [('rounding and matching of frequencies', QT + ': qtcurrent, _current_*_tones')],
     ['return value of qtcurrent'], 'exhaustive enumeration of request lists on the real code against a lookup model', 'The lookup model is built from the torus model of C01.')

prop('C05', 'Bias points are independent; a precomputed response matrix is equivalent',
     'The current at one bias voltage depends only on the junction voltage at that bias voltage: any selection, order or repetition of bias points gives the same columns. Giving a precomputed response matrix of the same circuit, response function and limits gives the same currents, and every entry of that matrix is the response function at the bias voltage plus the corresponding number of photon steps.',
     ['inputs', 'configurations'], 'all ordered selections (with repetition) of bias points up to the bound; every index of the matrix for one to four tones; all pairs of drives sharing a matrix',
     'Tests use one fixed bias sweep; a scratch array that is not reset or an index shifted for some tone only shows for particular selections.',
     [QT], [('vectorised over bias points', QT + ': _current_coeff_*'), ('interpolate_respfn per number of tones', QT + ': _interpolate_respfn_*_tone'), ('reuse of the matrix', QT + ': qtcurrent(resp_matrix=)')],
     ['return value of qtcurrent and interpolate_respfn'], 'exhaustive enumeration of bias point selections on the real code', 'Differential over the code itself plus direct evaluation for the matrix.')

prop('C06', 'Harmonic balance tells the truth about the voltages it returns',
     'The junction voltages returned by harmonic balance satisfy the circuit equation vj = vt - zt*i(vj) at every tone, harmonic and bias point to the requested error whenever the solver reports success, and it reports success exactly then. The result is the same for every way of dividing the iterations over several calls, and the output mode only changes what is returned.',
     ['inputs', 'configurations', 'histories'], '13 circuits of 1-4 tones and 1-3 harmonics, all splits of the iteration budget, error targets, dampings, output modes and starting points in the bounds; every single-signal error for the error check',
     'Tests check one- and two-tone circuits that converge; zero and complex impedances, zero sources, exhausted budgets and restarts are not reached.',
     [HB], [('Newton iteration and stopping test', HB + ': harmonic_balance'), ('inverse Jacobian', HB + ': _inv_jacobian'), ('error test', HB + ': check_hb_error')],
     ['return values of harmonic_balance and check_hb_error'], 'explicit-state exploration of solver states over all budget splits; circuit equation with an independent current model', 'Currents in the circuit equation come from the torus model, not from the code under test.')

prop('C07', 'Simulations are pure functions of their arguments',
     'No call changes the embedding circuit, response function, starting voltages, junction voltages or response matrix that it is given, and its result depends only on the present values of its arguments - not on earlier calls, on parameters that were changed in between, or on what the caller does with earlier results.',
     ['histories'], 'all histories of simulation calls and parameter changes on shared objects up to the depth bound',
     'Every test builds fresh objects; caches, aliases and temporarily modified circuits only show in multi-step histories.',
     [QT, HB, CC, RF], [('temporary circuit with two bias points', HB + ': harmonic_balance'), ('defensive copies', HB + ', ' + QT)],
     ['return values; all argument objects'], 'explicit-state exploration of call histories on the real objects against a result table', 'The result table has one entry per parameter state, so agreement shows that the history is irrelevant.')

prop('C08', 'Embedding circuit: units, powers and junction properties agree',
     'Frequencies, voltages, drive levels and available powers set in any supported unit (and any spelling of it) read back consistently in every other unit, with P = |V|^2/(8R), photon voltages h f/e and normalisation to the gap voltage, gap frequency and normal resistance. Setting one signal changes nothing else, and unknown units, missing junction properties and mistaken arguments raise an error and change nothing.',
     ['histories', 'inputs'], 'all operation sequences to the depth bound over set/get operations in all units on four kinds of circuit; all combinations of constructor arguments',
     'Tests set one tone in one unit at a time; which properties are known (gap as frequency or voltage, with or without resistance) changes the code path.',
     [CC], [('unit conversions', CC + ': set_freq, set_available_power, available_power, set_alpha'), ('derived junction properties', CC + ': __init__')],
     ['attributes of EmbeddingCircuit, available_power, vph'], 'explicit-state search over operation sequences against a reference model in SI units', 'The model is a dictionary of numbers with the defining formulas.')

prop('C09', 'A locked circuit cannot be changed; unlocking restores it',
     'While a circuit is locked every attempt to change its frequencies, voltages or impedances fails and leaves it as it was, simulations still work and leave it locked, and after unlocking writes work again. Locking one circuit does not affect another.',
     ['histories'], 'all sequences of lock, unlock, write, read and simulate operations on two circuits up to the depth bound',
     'The one test locks and writes once.',
     [CC, HB], [('write flags of the arrays', CC + ': lock, unlock'), ('simulation of a locked circuit', HB + ': harmonic_balance')],
     ['attributes of EmbeddingCircuit'], 'explicit-state search over operation sequences against a one-bit model', 'Covers two circuits, with simulations between the operations.')

prop('C10', 'A saved circuit reads back as the same circuit',
     'Reading a file written by save_info gives a circuit with exactly the same number of tones and harmonics, frequencies, voltages and impedances, for all values and whatever the names of the signals; saving and reading change nothing in the circuit that was saved, and a file holds the values of the time it was saved.',
     ['inputs', 'histories'], 'every value of a 25-value alphabet in every position of the file for 1-4 tones and 1-12 harmonics; all save / change / read sequences to the depth bound',
     'The test round-trips a single circuit with round numbers.',
     [CC], [('writer', CC + ': save_info'), ('reader', CC + ': read_circuit')],
     ['file contents; circuit returned by read_circuit'], 'exhaustive enumeration of contents and operation sequences on the real files', 'Files are written in a scratch folder only.')

prop('C11', 'A response function is one consistent complex function',
     'The dc current, its Kramers-Kronig transform, their derivatives, the complex response and its conjugated and swapped forms all describe the same function at every voltage; the current is odd, its transform even, the current is the normal-state line above the tabulated range, and scalars, lists and arrays of any shape give the same numbers. A response function whose interpolation is worse than the error limit is rejected.',
     ['inputs', 'configurations'], '16 response functions, all seven methods, eight argument forms, thousands of voltages over and beyond the table; six error limits',
     'Tests compare a few methods at a few voltages for one smoothing; signs and edges differ per method.',
     [RF], [('spline interpolation of both parts', RF + ': _setup_interpolation'), ('method family', RF + ': idc, ikk, didc, dikk, resp, resp_conj, resp_swap'), ('automatic sampling', RF + ': _sample_curve')],
     ['methods of RespFn*'], 'exhaustive evaluation of all methods on a bounded voltage grid against algebraic relations and an independent transform', 'Two listed findings: the derivatives of the unsmeared perfect curve raise TypeError.')

prop('C12', 'Response functions represent the curve they were built from',
     'A response function built from I-V data follows these data within the interpolation error for every sampling, order of keywords, voltage limit and number type, continues with unit slope beyond the limit, and with smearing follows the Gaussian average of the curve. Building one neither changes the data nor depends on what was built before, and later changes of the data do not reach it.',
     ['inputs', 'histories'], '4 data sets x 4 samplings x 4 limits x 3 keyword sets, 5 smearing widths, all construction histories of length 3 over 9 constructors',
     'Tests build from one evenly sampled curve that starts exactly at zero.',
     [RF], [('extension and mirroring of the data', RF + ': RespFn.__init__, RespFnFromIVData'), ('smearing', RF + ': RespFn*.__init__'), ('keyword defaults', RF + ': _default_params')],
     ['methods of RespFn*'], 'exhaustive enumeration of data sets, settings and construction histories on the real code', 'The oracle reads the given data linearly and smears them with a discrete Gaussian.')

prop('C13', 'I-V curve models match their definition everywhere',
     'The perfect, polynomial, exponential and expanded I-V curve models equal their defining formulas at every voltage - including the corner points, zero, negative, very large and integer voltages - are odd, and do not depend on whether the voltage comes as a number, list or array of any shape. Evaluating them never changes the argument or global numerical settings.',
     ['inputs'], '5 models x parameter grids x all corner points and a voltage grid x 9 argument forms',
     'Tests look at a few array values; integers, scalars, corners and overflow are not sampled.',
     [MF + 'ivcurve_models.py'], [('closed-form models', MF + 'ivcurve_models.py')],
     ['return values'], 'exhaustive enumeration of models, parameters, voltages and argument forms against closed formulas', 'Formulas are evaluated one voltage at a time with overflow-free logistic functions.')

prop('C14', 'Kramers-Kronig transforms are the right linear map',
     'Both transforms are linear in the deviation from the normal-state line, equal the discrete Hilbert transform / trapezoidal principal-value integral exactly, converge to the analytic transform on fine grids, and leave their arguments alone; data that are not evenly spaced are rejected where even spacing is needed.',
     ['inputs'], 'every basis vector on all grids of 2-17 points (and 41), several paddings, spacings and offsets: this decides the map for every input on these grids; every single displaced sample',
     'Tests transform one or two curves and compare with a tolerance of per cents.',
     [MF + 'kktrans.py'], [('padded FFT Hilbert transform', MF + 'kktrans.py: kk_trans'), ('principal value sum', MF + 'kktrans.py: kk_trans_trapz')],
     ['return values'], 'exhaustive extraction of the matrix of the linear map on all grids within the bounds', 'Linearity is itself checked, so that the matrix decides all inputs of that size.')

prop('C15', 'Gaussian smoothing is a centred, normalised average',
     'Smoothing is linear, keeps the length, keeps constants, is centred (it shifts nothing), has the requested width, mirrors the data at the ends and leaves its argument alone.',
     ['inputs'], 'every basis vector for 25 widths x 5 extents x all lengths from the shortest valid one',
     'The single test smooths one step with one width.',
     [MF + 'filters.py'], [('kernel and mirrored convolution', MF + 'filters.py: gauss_conv, _gauss')],
     ['return value'], 'exhaustive extraction of the matrix of the linear map within the bounds', 'Linearity is itself checked.')

prop('C16', 'Numerical derivatives are exact for straight lines',
     'The numerical derivatives keep the length, are linear, are exact for straight lines on every grid, ignore constants, are local (use no points beyond the span) and leave their arguments alone; the plain derivative is the centred difference, one-sided at the ends.',
     ['inputs'], 'every basis vector on four kinds of grids of 3-24 points, all spans 1-13',
     'The tests use one line and one sine on one grid.',
     [MF + 'misc.py'], [('differences', MF + 'misc.py: slope, slope_span_n')],
     ['return values'], 'exhaustive extraction of the matrix of the linear map within the bounds', 'Conditions on the rows, so that another definition of a local secant is accepted for slope_span_n.')

prop('C17', 'Cleaning of x/y data keeps exactly the right samples',
     'Cleaning removes exactly the samples with missing values, orders the rest by the first column, keeps exactly one sample of each group with the same first column, never tears the columns of a sample apart, and never changes its arguments; cleaning clean data changes nothing.',
     ['inputs', 'histories'], 'all x over {NaN,-1,0,1} times all NaN patterns in y for lengths 0-5; a second alphabet with signed zeros and infinities; permutation families of up to 130 samples; all sequences of the cleaning functions',
     'Each function has one test with one small array.',
     [EX + 'clean_data.py'], [('one function per step, for x/y pairs and matrices', EX + 'clean_data.py')],
     ['return values'], 'exhaustive enumeration of all small data sets on the real code against a multiset model', 'Which of several samples with the same first column is kept is left open; so is whether a repeated infinite first column counts as a repetition.')

prop('C18', 'Importing I-V data does not depend on how they were recorded',
     'The imported DC or pumped I-V curve is the same whatever the order in which the samples were recorded, the direction and ending of the sweep, the units and read-out gains, missing or repeated samples, and the memory layout or number type of the array. Of a sweep with hysteresis, only one pass enters the curve.',
     ['inputs', 'histories'], 'all small sweep histories (start, direction, ending, dwell, missing sample at each position); DC and pumped curves in 6 orders x 9 unit pairs x missing/repeat patterns x gains x layouts',
     'The tests import one or two example files in one presentation each.',
     [EX + 'iv_data.py', EX + 'clean_data.py'], [('loading and units', EX + 'iv_data.py: _load_iv'), ('one pass of the sweep', EX + 'iv_data.py: _take_one_pass'), ('resampling and filter', EX + 'iv_data.py: _filter_iv_data')],
     ['voltage and current of dciv_curve, iv_curve'], 'exhaustive enumeration of presentations of one measurement on the real importer', 'All presentations must agree with each other and with the sampled curve.')

prop('C19', 'Offsets and series resistance are removed from I-V data',
     'Importing a measurement with its voltage and current offset, gain errors and series resistance given returns the junction\'s own I-V curve, for DC and pumped curves, with none, one or both offsets given. Offsets that are not given are found when the curve is odd about them, and the reported offsets are the ones applied.',
     ['inputs', 'configurations'], '5 x 4 offsets x 5 series resistances x 3 gains x bipolar/one-sided x DC/pumped; 8 x 4 unknown offsets x 3 search ranges',
     'Tests use the example measurement with one set of parameters; zero current, one known offset and large offsets are not reached.',
     [EX + 'iv_data.py'], [('offset search', EX + 'iv_data.py: _correct_offset'), ('series resistance', EX + 'iv_data.py: _correct_series_resistance')],
     ['returned I-V curves and offsets'], 'exhaustive enumeration of measurement chains, inverse-model check on the real importer', 'Auto-search only claimed for offsets within a quarter of the search range of a bipolar measurement.')

prop('C20', 'Junction parameters found from a DC I-V curve are right',
     'Gap voltage, gap frequency, gap current, normal resistance, intercept, sub-gap resistance and leakage, quality factors, RNA and current density reported for a DC I-V curve equal those of the junction that was measured, for every setting of the analysis ranges, junction area and given gap voltage, and all outputs agree with each other.',
     ['inputs', 'configurations'], 'junctions on a lattice of gap, width, resistances and intercept; analysis parameters one and two at a time',
     'Tests compare one synthetic curve with wide tolerances.',
     [EX + 'iv_data.py', EX + 'exp_data.py'], [('gap voltage', EX + 'iv_data.py: _find_gap_voltage'), ('resistances', EX + 'iv_data.py: _find_normal_resistance, _find_subgap_resistance'), ('attributes', EX + 'exp_data.py: DCData.__init__')],
     ['DCIVData and DCData attributes'], 'exhaustive enumeration of junctions and settings against closed-form parameters', 'Piecewise linear junctions, for which every parameter is known exactly.')

prop('C21', 'Noise temperature and gain from hot/cold measurements are right',
     'For every pair of hot and cold IF sweeps the noise temperature, gain, best bias point and IF noise contribution are those of the Y-factor method and the shot-noise calibration, invalid points are never reported as best, and the results do not depend on the units, order, scale, missing or repeated samples of the measurements.',
     ['inputs', 'configurations'], 'all hot/cold sweeps on a small grid over power pairs (normal, equal, inverted, missing) with every best-point rule; receivers with known gain and noise in all presentations',
     'Tests import the example files once; a hot power below the cold power or a missing sample does not occur in them.',
     [EX + 'if_data.py', EX + 'exp_data.py'], [('Y factor', EX + 'if_data.py: _find_tn_gain'), ('shot noise slope', EX + 'if_data.py: _find_if_noise'), ('loading', EX + 'if_data.py: _load_if')],
     ['return values of if_data, dcif_data; attributes of DCData, PumpedData'], 'exhaustive enumeration of small sweeps plus lattice of receivers against a reference calculation', 'Receivers with exactly known gain, noise temperature and calibration.')

prop('C22', 'IF response equals the Y-factor result per channel',
     'The noise temperature at each IF frequency follows from the hot and cold power in dB by the Y-factor formula, values that are negative or above the limit are set to the limit, and the result does not depend on the array layout or on the other channels.',
     ['inputs'], 'all spectra of 1-4 channels over 7 hot-cold differences x 3 levels in 2 layouts with 6 parameter sets',
     'One example spectrum is tested.',
     [EX + 'if_response.py'], [('Y factor in dB, clipping', EX + 'if_response.py: if_response')],
     ['return value'], 'exhaustive enumeration of small spectra against a reference calculation', 'Square two-channel layouts are excluded as ambiguous.')

prop('C23', 'Impedance recovery finds the circuit that pumped the junction',
     'From a DC and a pumped I-V curve the analysis recovers the drive level and embedding circuit that produced the pumped curve, for every circuit within the search range and every fit range on the first photon step; a curve that no circuit explains is reported as a bad fit, and forced values are respected.',
     ['inputs', 'configurations'], 'lattice of impedances x drive levels x frequencies x junctions; fit and search ranges; curves generated by a reference model and by the package\'s own harmonic balance',
     'Tests run the recovery on an example whose true circuit is unknown.',
     [EX + 'exp_data.py'], [('drive level from the pumped curve', EX + 'exp_data.py: _find_alpha'), ('search over impedances', EX + 'exp_data.py: PumpedData._recover_zemb'), ('error function', EX + 'exp_data.py: _error_function, _find_source_voltage')],
     ['attributes zt, vt, alpha, zw, fit_good of PumpedData'], 'exhaustive lattice of circuits; pumped curves from an independent model of Tucker theory', 'The model solves the source equation by bisection at each bias voltage; tolerances are those of the search grid.')

prop('C24', 'Loading experimental data has no memory',
     'Importing a measurement gives the same result whatever was imported, failed or was modified by the caller before; it never changes the default parameters, the arrays and settings it is given, the DC data it is based on or earlier results. Giving a default value explicitly is the same as leaving it out.',
     ['histories', 'fault_sequences'], 'all sequences of ten operations (imports with different settings, failing imports, callers that overwrite results) to depth 3; every default given explicitly in four entry points',
     'Each test loads once; shared default dictionaries and aliased arrays only show in sequences.',
     [EX + 'exp_data.py', EX + 'iv_data.py', EX + 'if_data.py', EX + 'if_response.py', EX + 'parameters.py'], [('merging of settings and defaults', EX + '*.py: params, kwargs'), ('settings inherited from the DC data', EX + 'exp_data.py: PumpedData.__init__')],
     ['attributes of DCData, PumpedData; return values'], 'explicit-state exploration of operation histories on the real code against fresh-process digests', 'Bit-for-bit comparison with what a fresh process computes.')

prop('C25', 'Result files and figures show the data they were made from',
     'Every plotting and exporting function writes exactly the files it documents, into the documented folder, or draws on the axes it is given or on one new figure that it returns; the curves, markers, numbers and text tables in them are the data, results and figures of merit of the objects they were made from, in physical units. Nothing else changes: not the data, other files, other open figures or the folders that already exist. This holds with or without IF data and impedance recovery, and for any number and order of measurements.',
     ['histories', 'inputs'], 'all sequences of plotting calls to the depth bound in five output modes for six data sets; all subsets of existing result folders in several path spellings; all ordered selections of measurements; all options of the summaries',
     'All plotting code is excluded from coverage and called once, without looking at what it draws.',
     [EX + 'exp_data.py', EX + 'if_response.py'], [('plot methods', EX + 'exp_data.py: DCData.plot_*, PumpedData.plot_*'), ('result tables', EX + 'exp_data.py: plot_overall_results'), ('folders', EX + 'exp_data.py: initialize_dir, plot_all')],
     ['files on disk, Matplotlib figures and axes, printed summaries'], 'explicit-state exploration of call histories over files and open figures; contents read back and compared with the data', 'Figures are read through the Matplotlib API at a low resolution; pixels are not compared.')

prop('C26', 'What is printed states the values it describes',
     'The summary of an embedding circuit, the progress reports of harmonic balance and of the tunneling current, the summary of a response function\'s interpolation and the helpers for printing numbers, titles and progress bars print every item they are asked for, in order, with its own value in the stated unit and colour; nothing is printed when this is switched off, and printing changes nothing.',
     ['inputs', 'configurations'], 'all circuits of 1-4 tones and 1-3 harmonics with every subset of set signals; harmonic balance after every number of iterations; response functions of every class; all combinations of a lattice of numbers, units, comments and colours; all progress bars up to the bound',
     'The tests call the printing functions and discard the text.',
     ['qmix/circuit.py', 'qmix/harmonic_balance.py', 'qmix/qtcurrent.py', 'qmix/respfn.py', 'qmix/misc/terminal.py', 'qmix/misc/progbar.py'],
     [('circuit summary', 'qmix/circuit.py: EmbeddingCircuit.print_info, __str__'), ('iteration report', 'qmix/harmonic_balance.py: harmonic_balance'), ('interpolation summary', 'qmix/respfn.py: _setup_interpolation'), ('numbers and colours', 'qmix/misc/terminal.py: pvalf, pvale, cprint, printc'), ('bars', 'qmix/misc/progbar.py: progress_bar')],
     ['text on standard output'], 'exhaustive enumeration of objects; every printed number is parsed and compared with the object', 'Labels and units are part of the interface; white space and wording around them are not compared.')

prop('C27', 'Harmonic balance converges as Newton\'s method does',
     'From the automatic start, harmonic balance converges within the default number of iterations for moderately driven circuits of moderate impedance, with one to four tones and any number of harmonics. Near a solution one iteration brings the junction voltages back by the damped fraction of their distance (all of it without damping), whichever signal is off, in its real or imaginary part or together with the others.',
     ['inputs', 'configurations'], 'all circuits of a lattice of impedances x drive levels x frequencies x response functions, and of 1-4 tones with equal and very different impedances; every direction of the voltage space x distances x damping coefficients',
     'Tests check the residual after convergence for a few circuits; an error in the Jacobian or its inverse only slows the convergence down.',
     [HB], [('Jacobian by differences, and its inverse', HB + ': _inv_jacobian'), ('correction and damping', HB + ': harmonic_balance')],
     ['return values of harmonic_balance (mode x, max_it, vj_initial, damp_coeff)'], 'exhaustive enumeration of displaced states; each transition is one real iteration, compared with the linear model', 'Circuits whose junction has negative resistance at some bias point (nearly singular Jacobian) are not on the lattice.')

prop('C28', 'Calls that run at the same time do not disturb each other',
     'Simulations, circuits, response functions and data analyses can be used in several threads: whichever line a call has reached when other calls run, each call returns what it returns alone, arguments that are shared by the calls are never changed (not even for a moment), and no settings of the process change.',
     ['schedules'], 'all schedules with one preemption, at every line of the package, for all pairs of calls in a group (equal and different calls, shared and separate arguments); all schedules with two preemptions for 18 pairs',
     'Tests run in one thread. A work array, a cache or a setting that is changed for the duration of a call works in every test.',
     [QT, HB, CC, RF, MF + 'misc.py', EX + 'exp_data.py', EX + 'iv_data.py', EX + 'if_data.py'], [('intermediate results are local variables', QT + ': calculate_phase_factor_coeff, interpolate_respfn'), ('the circuit is only read', HB + ': harmonic_balance'), ('settings are passed as arguments', EX + '*.py: kwargs, params')],
     ['return values and arguments of the public functions'], 'stateless model checking of the real code: a controlled scheduler (sys.monitoring) executes every interleaving up to the preemption bound', 'A preemption is possible at every line of the package; compiled loops and library calls are atomic. The second call runs to its end (one preemption) or is preempted as well (two). Plotting is not included.')

prop('C29', 'An interrupted or failing call leaves nothing behind',
     'A simulation, response function or data analysis that is interrupted (Ctrl-C), runs out of memory or is refused because of wrong arguments leaves its arguments, the circuit and its lock, the default parameters and the settings of the process (working directory, NumPy error handling, warnings, open files, random numbers, plot settings) as they were; afterwards the same call and other calls return what they always return.',
     ['fault_sequences', 'histories'], 'an interruption and an allocation failure at every line of the package that 34 calls execute, each followed by complete calls; all pairs of two faults in a row for 10 calls; 30 calls with wrong arguments',
     'No test interrupts a call, and few make one fail.',
     [QT, HB, CC, RF, EX + 'exp_data.py', EX + 'iv_data.py', EX + 'if_data.py'], [('no state outside of the call', QT + ', ' + HB), ('lock and unlock', CC + ': EmbeddingCircuit.lock, unlock'), ('settings and defaults', EX + 'parameters.py')],
     ['arguments, process-wide settings and the results of later calls'], 'exhaustive exploration of fault points of the real code (an exception raised at every executed line through sys.monitoring)', 'No fault is placed on the lines that restore something (headers of with and try, bodies of finally and except): no code could survive that.')

prop('C30', 'A result depends on the values of the arguments alone',
     'What any public function of the package returns (currents, harmonic balance, response functions, circuit files and powers, experimental data, filters, transforms, derivatives, I-V models) is determined by the present values of its arguments: not by earlier calls, however similar their arguments were, not by what the caller has done to earlier results, and not by the identity of argument objects whose content the caller has changed since the last call.',
     ['histories', 'inputs'], '61 calls, two sets of arguments each; every value among them replaced by up to nine twins (one element or number a little different, two elements exchanged, order reversed, another phase or sign); histories of four calls on equal, almost equal and modified objects',
     'Tests call each function with clearly different arguments, mostly once: a stale or too coarsely keyed intermediate result is never noticed.',
     [QT, HB, CC, RF, MF, EX + 'iv_data.py', EX + 'if_data.py', EX + 'exp_data.py'], [('no state between calls', QT + ', ' + HB + ', ' + RF), ('fresh arrays on every call', MF + ', ' + EX + 'iv_data.py')],
     ['return values of the public functions'], 'exhaustive exploration of histories of real calls with almost equal arguments', 'The expected result of each call comes from the same call in a process of its own.')

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
               notes='No hooks in /repo. Every check is "bash check.sh <id>"; it imports qmix from the working tree of /repo. Add --replay FILE to repeat a counterexample.')
    for p in P:
        man['checks'].append(dict(property=p['id'], quick_cmd='bash check.sh {} --tier quick'.format(p['id']),
                                  thorough_cmd='bash check.sh {} --tier thorough'.format(p['id']),
                                  technique='model checking: ' + p['technique'], level='model_checking', level_note=p['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
