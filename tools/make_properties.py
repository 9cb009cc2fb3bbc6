"""Writes properties.jsonl (one record per property). Run by hand when a property changes."""
import json, pathlib
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

B = 'moirae/models/base.py'
ECM = 'moirae/models/ecm/__init__.py'
CO = 'moirae/models/ecm/components.py'
UT = 'moirae/models/ecm/utils.py'
AS = 'moirae/models/ecm/advancedSOH.py'
TR = 'moirae/models/ecm/transient.py'
SIM = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'
UKF = ON + 'filters/kalman/unscented.py'
KU = ON + 'filters/kalman/utils.py'
CONV = ON + 'filters/conversions.py'
DIST = ON + 'filters/distributions.py'
WR = ON + 'utils/model.py'
JO = ON + 'joint.py'
DU = ON + 'dual.py'
OF = 'moirae/estimators/offline/'
IF = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
EX = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/'

prop('C01', 'Health parameters behave as a map from dotted name to value',
     'For any tree of health parameters (nested objects, tuples, dictionaries, scalars and vectors, batched or not), '
     'reading a parameter by its dotted name returns the value last written to that name, whichever write operation was used, '
     'and no write changes any other parameter. '
     'Unbatched values are repeated across the batch when read together, and a copy never shares values with its original or with the array it was made from. '
     'Names which do not exist are rejected and change nothing.',
     ['inputs', 'histories'], 'All trees of up to four levels, all consistent batch sizes, all sequences of named writes, bulk writes, copies and reads.',
     'Tests write one or two parameters of one fixed tree; aliasing and cross-talk only show over sequences of mixed operations on many shapes of tree.',
     [B], [('named access along the chain of containers', B + ':_get_model_chain, set_value, get_parameters, update_parameters, make_copy')],
     ['get_parameters', 'iter_parameters'])
prop('C02', 'The updatable selection alone decides what bulk reads and writes touch',
     'After any sequence of marking parameters as updatable or fixed, bulk reads return exactly the values of parameters whose whole path is marked, '
     'in one stable order on which names, expanded names, values and counts all agree, and bulk writes change exactly those. '
     'Writing to a parameter that is fixed anywhere along its path, or supplying too few or too many values, is rejected with an error.',
     ['inputs', 'histories'], 'All trees and all sequences of mark-one, mark-all, fix-all (recursive or not), bulk reads and bulk writes.',
     'Tests mark a couple of names on fixed trees; the selection is a set of flags spread over the tree whose combinations are exponential.',
     [B, UT], [('updatable flags consulted while iterating and updating', B + ':mark_updatable, mark_all_updatable, mark_all_fixed, iter_parameters, update_parameters, expand_names')],
     ['updatable_names', 'num_updatable', 'expand_names', 'get_parameters'])
prop('C03', 'Containers and their vector form are interconvertible without loss',
     'Converting any container of inputs, outputs or transient states to its vector form and back is the identity: absent optional fields are skipped, '
     'unbatched fields are repeated across the batch, and field names, per-value names, lengths and vector positions describe one layout. '
     'Copies made from a vector leave the original unchanged and share no memory with the vector.',
     ['inputs', 'histories'], 'All container layouts (scalars, lists of any length, optional fields present or absent), batch sizes, and sequences of conversions.',
     'Tests convert a few fixed layouts; the guarantees quantify over layouts, batches and values.',
     [B, TR, 'moirae/models/ecm/ins_outs.py'], [('field-ordered packing and unpacking', B + ':GeneralContainer.to_numpy, from_numpy, make_copy, expand_names')],
     ['to_numpy', 'from_numpy', 'all_names', '__len__'])
prop('C04', 'Values are normalised batch-first and inconsistent batches are rejected',
     'Numbers, lists and arrays supplied for scalar or vector quantities are stored as two-dimensional batch-first arrays holding exactly the supplied values in order, '
     'and the reported batch size of any object is the common size of its batched members. '
     'Objects whose members have conflicting batch sizes, and values with too many dimensions, raise an error rather than being silently reshaped.',
     ['inputs'], 'All accepted shapes of numbers, lists and arrays; all combinations of member batch sizes at any depth of nesting.',
     'Tests try a handful of shapes; the combination of nesting, ordering and batch sizes is unbounded.',
     [B], [('dimension normalisation', B + ':enforce_dimensions'), ('batch size consistency', B + ':HealthVariable.batch_size, GeneralContainer.batch_size, check_batch_size')],
     ['batch_size', 'shapes of stored values'])
prop('C05', 'Saving to JSON and loading back preserves parameters and behaviour',
     'Writing any state of health, transient state or set of inputs to JSON and loading it back gives an object with the same values, batch size, names and updatable selection, '
     'which predicts the same voltages and state updates, including when the object has been evaluated or simulated before saving. '
     'Saving never alters the object.',
     ['inputs', 'histories'], 'All circuits, transient states and inputs, batched or not, saved before or after any amount of use.',
     'Tests round-trip one fresh object; the failure mode is state acquired through use.',
     [B, UT, CO, AS, TR], [('array serialisers and validators', B + ':ScalarParameter, ListParameter; ' + UT + ':_serialize_numpy')],
     ['model_dump_json', 'model_validate_json'])
prop('C06', 'SOC- and temperature-dependent circuit parameters evaluate as documented',
     'A parameter tabulated against state of charge evaluates to the interpolant of its own table in the requested style (reproducing the table at its points, constant if there is one value, evenly spaced points if none are given), '
     'resistances are scaled by the exponential temperature law and open-circuit voltages shifted by the entropic term relative to their reference temperatures. '
     'Results are laid out as (parameter batch, SOC batch, SOC points) and each entry depends only on its own table row and SOC.',
     ['inputs'], 'All tables, pinpoints, interpolation styles, SOC arrays of any rank, temperatures and batch sizes.',
     'Tests check evenly spaced polynomials for one unbatched table per style.',
     [UT, CO], [('interpolation and batching', UT + ':SOCInterpolatedHealth.get_value'), ('temperature laws', CO + ':Resistance.get_value, OpenCircuitVoltage.get_value')],
     ['get_value', 'time_constant'])
prop('C07', 'Circuit state update follows the equivalent-circuit equations',
     'For any circuit, state and pair of inputs, one update gives the state of charge, series-capacitor charge, RC currents and hysteresis voltage of the analytic solution of the circuit equations '
     'over the elapsed time, with circuit parameters evaluated at the starting state of charge and temperature and the coulombic efficiency applied only while charging. '
     'Current is held constant (RC branches see the new value, everything else the previous one) or varies linearly between the two inputs, including through zero.',
     ['inputs', 'configurations'], 'All circuit topologies, parameter values, states, currents of any sign, step lengths including zero, and both current behaviours.',
     'Tests cover single-element circuits at one or two currents; sign combinations, ramps through zero and mixed topologies are untested.',
     [ECM, UT], [('closed-form updates', ECM + ':update_transient_state'), ('hysteresis solution', UT + ':hysteresis_solver_const_sign')],
     ['update_transient_state'])
prop('C08', 'Splitting a time step at intermediate points does not change where it ends',
     'When circuit parameters do not depend on state of charge or temperature, advancing over an interval in one step or in any number of sub-steps with the corresponding intermediate currents gives the same transient state, '
     'for constant and for linearly varying current. '
     'A step of zero duration leaves the transient state unchanged.',
     ['histories', 'inputs'], 'All circuits with constant parameters, all partitions of an interval, currents that stay constant, ramp, start or end at rest, or change sign.',
     'A semigroup law over arbitrary partitions; tests only step at one fixed rate.',
     [ECM, UT], [('closed-form updates', ECM + ':update_transient_state')], ['update_transient_state'])
prop('C09', 'Terminal voltage is the sum of the contributions of each circuit element',
     'The predicted terminal voltage equals open-circuit voltage plus series resistive drop, series-capacitor voltage, the voltage over every RC element and the hysteresis voltage, '
     'each evaluated at the given state of charge, current and temperature. '
     'Predicting a voltage changes neither the state nor the parameters.',
     ['inputs', 'configurations'], 'All topologies, states, currents, temperatures (or none) and batch layouts.',
     'Tests check single elements with unit values; wrong pairing of RC elements or temperatures needs mixed circuits.',
     [ECM, CO], [('voltage sum', ECM + ':calculate_terminal_voltage')], ['calculate_terminal_voltage'])
prop('C10', 'A batch behaves as independent cells run one at a time',
     'Updating states, predicting voltages and computing energies for a batch gives, for every member, the result obtained by running that member alone, '
     'whichever of the parameters, transient states and inputs are batched. '
     'Reordering or duplicating members reorders or duplicates the results.',
     ['inputs', 'configurations'], 'All choices of which leaf parameters, state entries and inputs carry the batch, batch sizes including those equal to other dimensions, both current behaviours.',
     'Tests check result shapes for one batched parameter at a time and never compare values against unbatched runs.',
     [ECM, UT, CO, AS], [('broadcast and diagonal extraction', ECM + ':update_transient_state, calculate_terminal_voltage')], ['update_transient_state', 'calculate_terminal_voltage', 'get_theoretical_energy'])
prop('C11', 'Simulated cells obey the physical invariants of the circuit',
     'Along any current history: charge moved at unit coulombic efficiency is conserved (state of charge depends only on net charge), charging never lowers and discharging never raises state of charge, rest leaves it unchanged; '
     'RC currents stay within the range of applied currents and decay at rest; '
     'hysteresis stays within its envelope and moves toward the side of the applied current, without changing at rest.',
     ['histories'], 'All histories of charge, discharge and rest with arbitrary step lengths for all circuits started within their physical ranges.',
     'Invariants over arbitrary histories; tests run one fixed protocol.',
     [ECM, UT], [('closed-form updates', ECM + ':update_transient_state')], ['Simulator.transient_history'])
prop('C12', 'Theoretical energy is capacity times the integral of open-circuit voltage',
     'The theoretical energy of a cell equals its capacity times the integral of its open-circuit voltage over the requested SOC range (in either order of limits) at the requested temperature, '
     'so it is additive over adjacent ranges, proportional to capacity, and shifts with constant voltage offsets by offset times charge. '
     'A batch of cells gives one value per cell.',
     ['inputs'], 'All open-circuit voltage tables, SOC ranges, temperatures, capacities and batches.',
     'Tests check one table and range.',
     [AS, CO], [('trapezoidal integration', AS + ':get_theoretical_energy')], ['get_theoretical_energy'])
prop('C13', 'A simulation is the step-by-step application of the model to its inputs',
     'Running a simulator over any list of inputs gives, at each step, the state from applying the cell model to the previous state, previous inputs and current health, the voltage of that new state, then the health from the degradation model; '
     'it is the same whether inputs are stepped or evolved in any grouping, and whether or not history is kept. '
     'The histories record the initial condition and every step in order, and neither later changes to objects supplied by the caller nor the simulation itself alter the other.',
     ['histories', 'inputs'], 'All circuits, batches, input sequences, groupings of steps and degradation models, with callers reusing and mutating their own objects between steps.',
     'Tests run one fixed protocol and check final values; ordering of degradation and isolation from callers are untested.',
     [SIM, 'moirae/models/utils.py'], [('stepping and copying', SIM + ':Simulator.__init__, step, evolve')], ['transient_history', 'measurement_history', 'asoh_history', 'input_history'])
prop('C14', 'Exported simulations attribute every value to its own cell and time',
     'Exporting a simulation gives, for every batch member and time, one row holding exactly the inputs, transient states and measurements recorded for that member at that time under the right column names, with unbatched quantities repeated for every member. '
     'The per-cell datasets hold the same rows in time order, one dataset per member.',
     ['inputs', 'histories'], 'All circuits, batch sizes, mixtures of batched and unbatched inputs and states, and lengths of history.',
     'The only test uses identical members, so mislabelled rows cannot be seen.',
     [SIM], [('history compilation', SIM + ':to_dataframe, to_batdata')], ['to_dataframe', 'to_batdata'])
prop('C15', 'Coordinate conversions of points and covariances agree and invert',
     'For linear and absolute-value coordinate conversions, inverse undoes forward on the domain where an inverse exists, points convert one at a time or together alike, '
     'and a covariance converts as J-transpose C J with J the Jacobian of the point conversion at the pivot, in both directions, staying symmetric. '
     'Conversions never modify the arrays given to them, and the identity conversion changes nothing.',
     ['inputs'], 'All scalar, per-coordinate and matrix factors including dimension-reducing ones, offsets, index selections, points (single or many) and covariances.',
     'Tests use a few fixed matrices; transposition mistakes are invisible for the symmetric or diagonal ones.',
     [CONV], [('linear and first-order conversions', CONV + ':LinearConversionOperator, AbsoluteValueConversionOperator')], ['transform_samples', 'transform_covariance', 'inverse_*'])
prop('C16', 'Distributions combine and convert without loss and reject malformed input',
     'Combining independent distributions concatenates their means in order and stacks their covariances block-diagonally, for any number of parts; converting one converts mean and covariance consistently about the right pivot; '
     'neither changes the originals, and reading a moment returns a private copy. '
     'Means that are not vectors and covariances whose shape does not match are rejected.',
     ['inputs', 'histories'], 'All dimensions, numbers of parts, conversions and malformed shapes.',
     'Tests combine two fixed distributions.',
     [DIST], [('combine and convert', DIST + ':DeltaDistribution, MultivariateGaussian')], ['get_mean', 'get_covariance', 'combine_with', 'convert'])
prop('C17', 'On linear Gaussian systems the filter is the exact Kalman filter',
     'For any linear system with Gaussian noise, every step of the unscented filter gives the posterior mean and covariance and the predicted output mean and covariance of the exact Kalman filter, whatever its tuning parameters, '
     'using the previous and new controls at the right places. '
     'The returned distributions are private copies and the caller\'s initial distributions are unchanged.',
     ['inputs', 'histories', 'configurations'], 'All stable and unstable linear systems of up to several dimensions, noises, tunings, control and measurement sequences.',
     'Tests follow one linear motion example within loose statistical bounds.',
     [UKF, KU, ON + 'filters/base.py'], [('sigma points and weights', UKF + ':build_sigma_points, mean_weights, cov_weights'), ('correction', UKF + ':correction_update')], ['UnscentedKalmanFilter.step'])
prop('C18', 'Filter covariances stay symmetric positive semi-definite',
     'Starting from any valid covariances, including singular and badly scaled ones, every hidden-state covariance the filter holds or returns is symmetric, positive semi-definite up to rounding and finite. '
     'The repair used to guarantee this returns matrices that are already valid unchanged and otherwise the nearest symmetric positive semi-definite matrix.',
     ['histories', 'inputs'], 'All symmetric, asymmetric, indefinite and singular matrices; all filter histories with informative, uninformative and conflicting measurements.',
     'No test calls the repair on a matrix that needs it.',
     [KU, UKF], [('projection', KU + ':ensure_positive_semi_definite, enforce_positive_semi_defiteness')], ['hidden.get_covariance', 'ensure_positive_semi_definite'])
prop('C19', 'On nonlinear systems the filter is the augmented unscented transform',
     'For any nonlinear model, each filter step equals the textbook unscented Kalman filter on the state augmented with process and sensor noise: scaled symmetric sigma points, documented weights from alpha, beta and kappa, propagation with previous and new controls, and the standard gain. '
     'Invalid tuning parameters and mismatched dimensions are rejected, and extra model arguments reach the model.',
     ['inputs', 'histories', 'configurations'], 'All smooth nonlinear models, dimensions, tunings, covariances and measurement sequences.',
     'Tests only compare statistics of a linear example; wrong weights of individual points cancel there.',
     [UKF], [('unscented transform', UKF + ':estimation_update, correction_update')], ['UnscentedKalmanFilter.step', 'hidden'])
prop('C20', 'Joint estimation does not depend on the coordinates used inside the filter',
     'For any affine or diagonal choice of filter coordinates, including normalisation of health parameters, a joint estimator gives the same sequence of state estimates, covariances, predictions and estimated cell objects as without it. '
     'The reported state, the result of stepping and the reconstructed cell objects agree with each other, are in model units, and follow the reported names. '
     'Process noise given for the transient states only, or for the health parameters only, is used, with the default noise of the filter for the others.',
     ['inputs', 'histories', 'configurations'], 'All circuits, selections of estimated parameters, coordinate changes, noise settings and measurement histories.',
     'Tests compare two runs loosely by eye-level error bounds on one circuit.',
     [JO, WR, CONV], [('conversion at the filter boundary', JO + ':step, state, initialize_ukf_from_wrapper'), ('joint wrapper', WR + ':JointCellModelWrapper')], ['state', 'step', 'get_estimated_state', 'state_names'])
prop('C21', 'Dual estimation is two coupled filters reported in one consistent state',
     'Each step of a dual estimator equals stepping a transient filter with the previous health estimate and a health filter with the previous transient estimate, with health estimates of exactly the selected parameters in the selected order. '
     'The reported state is the two estimates side by side with no cross-covariance, in model units whatever coordinates each filter uses, and agrees with the result of stepping, the reconstructed cell objects and the reported names.',
     ['inputs', 'histories', 'configurations'], 'All circuits, selections and orders of estimated parameters, coordinate changes, noises and measurement histories.',
     'Tests follow one circuit with all updatable parameters in default order and never read the combined state.',
     [DU, WR], [('posterior exchange between filters', DU + ':step, get_estimated_state, state'), ('degradation wrapper', WR + ':DegradationModelWrapper')], ['state', 'step', 'get_estimated_state'])
prop('C22', 'Filter-side model wrappers compute exactly what the cell model computes',
     'Evaluating a wrapped cell model on an array of hidden states gives, row by row, the values from calling the cell model directly on the states, health parameters and inputs those rows and controls describe, converted to and from filter coordinates; '
     'health parameters not part of the hidden state keep their given values. '
     'Creating a hidden state from cell objects and reading cell objects from a hidden state are inverse, and evaluating never changes the wrapper or its arguments.',
     ['inputs', 'configurations'], 'All circuits, selections of hidden parameters, converters on hidden states, controls and outputs, degradation models, and numbers of rows.',
     'Tests check shapes and one default row.',
     [WR], [('array to object translation', WR + ':CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper')], ['update_hidden_states', 'predict_measurement', 'create_hidden_state', 'create_cell_model_inputs'])
prop('C23', 'An estimator started at the truth and fed exact data stays at the truth',
     'If the initial estimate is exact and measurements come noise-free from the same model, prediction errors and estimate errors of the joint and dual estimators remain negligible compared with the stated uncertainties along any drive cycle, '
     'and uncertainty of directly observed quantities does not grow above its prior plus accumulated process noise.',
     ['histories', 'inputs'], 'All circuits, current histories and initial uncertainties small enough for the model to be nearly linear across them.',
     'Tests check a single drive cycle for one circuit against a random-noise tolerance.',
     [JO, DU, UKF, WR, ECM], [('whole estimation pipeline', JO + ':step; ' + DU + ':step')], ['step', 'state'])
prop('C24', 'Batch estimation over a dataset equals stepping the estimator row by row',
     'Running an estimator over a dataset gives one output row per record in time order, equal to the mean and standard deviation of state and predicted output obtained by stepping the estimator by hand with that record\'s time, current, temperature (a default if missing or not finite) and voltage. '
     'The result is the same from memory or from a file, with or without writing to a file, and the returned estimator is left in the final state.',
     ['inputs', 'histories', 'configurations'], 'All datasets (lengths, cycles, missing or invalid temperatures, indices), estimators and output options.',
     'Tests only check the shape of the output.',
     [IF], [('row conversion and accumulation', IF + ':row_to_inputs, run_online_estimate')], ['run_online_estimate', 'row_to_inputs'])
prop('C25', 'Estimates written to HDF5 are read back exactly',
     'Whatever is written per time step (full, mean with covariance, mean with variance, mean only) is read back in order with the same times, means and covariances as far as the mode stores them, and per-cycle output holds the first estimate of each cycle present, with no step lost, duplicated or invented. '
     'This holds for any number of steps and any cycle numbering, for growable and fixed-size outputs, for files and open groups, and for steps written before an error interrupts the run; writing outside an open session, or over existing estimates, is refused.',
     ['inputs', 'histories', 'crash_points', 'configurations'], 'All modes, lengths across chunk boundaries, cycle numberings with repeats and gaps, storage options and interruption points.',
     'Tests write two steps of cycle zero.',
     [H5], [('incremental writing', H5 + ':HDF5Writer.prepare, append_step'), ('reading', H5 + ':read_state_estimates')], ['read_state_estimates', 'HDF5 datasets'])
prop('C26', 'The offline loss is the mean squared voltage error of simulating each candidate',
     'For any dataset and any set of candidate parameter vectors, the loss of each candidate is the mean over records of the squared difference between recorded voltage and the voltage simulated from that candidate\'s initial state and health parameters, the first record included. '
     'It is independent of the other candidates evaluated with it, leaves the objective unchanged, is zero at the parameters that generated the data, and the suggested starting point reproduces the initial guess.',
     ['inputs', 'histories'], 'All circuits, selections of fitted parameters, datasets and batches of candidates.',
     'Tests evaluate one candidate at the exact answer.',
     [OF + 'loss.py'], [('forward simulation and averaging', OF + 'loss.py:MeanSquaredLoss.__call__, get_x0')], ['MeanSquaredLoss.__call__', 'get_x0'])
prop('C27', 'Offline estimates are the optimum found, mapped back to cell parameters',
     'The returned initial state and health parameters are the optimiser\'s solution vector assigned to the right quantities, with all parameters not being fitted left at their initial values, and their loss is never worse than that of the initial guess for a descent method. '
     'Options given by the user reach the optimiser, the reported objective is the loss relative to that of the initial guess, and the objective\'s own initial guess is not modified.',
     ['inputs', 'configurations'], 'All circuits, fitted selections, optimiser methods and options on generated datasets.',
     'One test fits one dataset.',
     [OF + 'scipy.py', OF + 'loss.py'], [('normalised objective and mapping', OF + 'scipy.py:ScipyMinimizer.estimate')], ['estimate'])
prop('C28', 'Capacity extraction returns the largest charge capacity among cycles',
     'The extracted capacity equals the largest per-cycle charge capacity, taken from the cycle summary if it has it and otherwise computed from the current record, whatever the order of cycles. '
     'It scales with current and does not depend on where time starts.',
     ['inputs'], 'All datasets of several cycles with arbitrary current profiles, with or without precomputed summaries.',
     'One test on one file.',
     [EX], [('maximum over cycles', EX + ':MaxCapacityExtractor.extract')], ['extract'])
prop('C29', 'Open-circuit voltage extraction fits the weighted spline it documents',
     'The extracted curve is the least-squares cubic spline of voltage against SOC (charge over capacity) with knots at the interior points and weights inversely proportional to current: it reproduces any curve that is itself such a spline, is equivariant to offset and scaling of voltage, and is unaffected by row order and by scaling all currents. '
     'The result is an open-circuit voltage tabulated at the requested points in the requested style, and data sampling too little of the capacity are rejected.',
     ['inputs'], 'All capacities, knot grids, SOC samplings, current patterns and voltage curves.',
     'Tests check one file within a loose tolerance.',
     [EX], [('weighted spline', EX + ':OCVExtractor.interpolate_ocv, extract, check_data')], ['extract', 'check_data'])
prop('C30', 'The Thevenin adapter passes each cell to the solver with the right values',
     'For every member of a batch, the adapter hands the external solver that member\'s health parameters, initial state of charge, RC overpotentials and ambient temperature, and the applied current with the solver\'s opposite sign over the elapsed time, and returns the solver\'s final state of that member. '
     'Predicted voltage is open-circuit voltage plus current times series resistance minus the RC overpotentials, per member. '
     'Cells of this model run through the simulator and the wrappers of the estimators as any other cell does.',
     ['inputs', 'configurations'], 'All numbers of RC elements, polynomial parameters, batch layouts, states and inputs, against a recording stand-in for the solver.',
     'The solver is not available here, so the adapter\'s tests do not run at all.',
     [TH + '__init__.py', TH + 'state.py'], [('model construction and stepping', TH + '__init__.py:_make_models, update_transient_state, calculate_terminal_voltage')], ['update_transient_state', 'calculate_terminal_voltage'])
prop('C31', 'Estimators are isolated from their callers and reproducible',
     'An estimator built from a cell\'s parameters, states, inputs and covariances is unaffected by later changes to those objects, does not change them, and does not change inputs or measurements given to a step. '
     'Two estimators built from equal objects give identical results on equal data even when run interleaved, and changing anything an estimator returned does not affect it. '
     'A deep copy of an estimator, made at any point of its history, continues exactly as the original does.',
     ['histories', 'schedules'], 'All joint and dual estimators, and all interleavings of steps with mutations of caller-owned or returned objects.',
     'Tests build one estimator at a time and never touch shared objects again.',
     [JO, DU, WR, UKF, ON + '__init__.py', ON + 'filters/base.py'], [('defensive copies', ON + '__init__.py:OnlineEstimator.__init__; ' + WR + ':BaseCellWrapper; ' + ON + 'filters/base.py:BaseFilter')], ['step', 'state', 'get_estimated_state'])
prop('C32', 'Polynomial circuit parameters evaluate their own member\'s polynomial',
     'A parameter given by polynomials in state of charge and temperature evaluates, for a chosen batch member or for the whole batch at once, to that member\'s SOC polynomial plus its temperature polynomial about its reference temperature. '
     'Evaluating the whole batch agrees with evaluating members one at a time.',
     ['inputs'], 'All polynomial degrees, batch layouts, SOCs and temperatures.',
     'These tests do not run here because the module needs an unavailable package.',
     [TH + 'components.py'], [('polynomial evaluation', TH + 'components.py:SOCPolynomialVariable, SOCTempPolynomialVariable')], ['__call__'])
prop('C33', 'Circuit templates build the requested circuit with independent elements',
     'A template builds a circuit with exactly the requested capacity, efficiency, resistances, capacitances, hysteresis, number of RC elements and series capacitor, every element independent of the others and of other circuits, '
     'and transient states made for a circuit have one entry for each of its dynamic elements at the requested starting values. '
     'Inconsistent requests are rejected, and changing the capacity through either unit is reflected in both.',
     ['inputs', 'configurations'], 'All combinations of template options and all later changes to any element.',
     'Tests build a few default templates and never change one element to see another move.',
     [AS, TR, CO], [('template constructors', AS + ':provide_template; ' + TR + ':provide_template, from_asoh')], ['provide_template', 'from_asoh', 'q_t.value'])

prop('C34', 'Simulation and estimation work alike for any user-defined cell model',
     'For any cell model which follows the documented interface, whatever quantities make up its inputs, transient states, outputs and (nested) health parameters, a simulation is the step-by-step application of that model and of the degradation model for every member of a batch, '
     'and joint and dual estimators are unscented filters on exactly that model with all of its outputs. '
     'Names of states, outputs, controls and exported columns describe the values at their positions, parameters which are not estimated keep their values, and estimates written to a file are read back.',
     ['inputs', 'histories', 'configurations'], 'All layouts of quantities (absent, scalar, vectors of any width, nested, in tuples and dictionaries), all batches, drives, selections of parameters, tunings and coordinates.',
     'Tests use the built-in circuit model only, with one output and one layout.',
     [SIM, WR, JO, DU, ON + '__init__.py', B], [('interfaces which are agnostic to the model', SIM + ':Simulator; ' + WR + ':BaseCellWrapper; ' + ON + '__init__.py:OnlineEstimator')], ['step', 'evolve', 'to_dataframe', 'state', 'get_estimated_state'])

pathlib.Path(__file__).resolve().parents[1].joinpath('properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
