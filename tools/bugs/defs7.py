import pathlib
exec(pathlib.Path(__file__).with_name('defs5.py').read_text().split("BUGS['c01-namesbatch']")[0])
THEV = pathlib.Path(__file__).with_name('defs2.py').read_text().split("THEV = '''")[1].split("'''")[0]

BUGS['c05-compress'] = dict(
    property='C05',
    edits=[(B, "    return value.tolist()\n", "    # Members which are all alike are stored once\n    if value.ndim == 2 and (value == value[:1]).all():\n        value = value[:1]\n    return value.tolist()\n")],
    needs='A batch all members of which are alike',
    breaks='The batch becomes a single member when loaded',
    demo=HV + '''
l = Leaf(a=[2., 2., 2.])
assert Leaf.model_validate_json(l.model_dump_json()).batch_size == 3
''')

BUGS['c14-cache'] = dict(
    property='C14',
    edits=[(S, "        # Any of the quantities at any of the steps may be the one which is batched\n", "        # Nothing to compile if there were no steps since the last time\n        compiled = getattr(self, '_compiled', None)\n        if compiled is not None and compiled[0] == len(self.input_history):\n            return compiled[1]\n\n        # Any of the quantities at any of the steps may be the one which is batched\n"),
           (S, "        return pd.concat([\n            pd.DataFrame({'batch': member}),", "        self._compiled = len(self.input_history), pd.concat([\n            pd.DataFrame({'batch': member}),"),
           (S, "            _squish(self.measurement_history)\n        ], axis=1)\n", "            _squish(self.measurement_history)\n        ], axis=1)\n        return self._compiled[1]\n")],
    needs='Exporting as a battery dataset, then as a table without steps in between',
    breaks='Columns of the table are those of the dataset',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
s = Simulator(cell_model=ECM(), asoh=a, transient_state=ECMTransientVector.from_asoh(a), initial_input=ECMInput(), keep_history=True)
s.step(ECMInput(time=1., current=1.))
s.to_batdata()
assert 'terminal_voltage' in s.to_dataframe().columns
''')

BUGS['c15-sign0'] = dict(
    property='C15',
    edits=[(CV, "            diagonal = np.where(pivot >= 0, 1., -1.)\n", "            diagonal = np.sign(pivot)\n")],
    needs='A pivot which is exactly zero',
    breaks='The variance of the value vanishes',
    demo=EST + '''
c = AbsoluteValueConversionOperator().transform_covariance(np.eye(2), pivot=np.array([0., 1.]))
assert np.allclose(c, np.eye(2)), c
''')

BUGS['c16-assign'] = dict(
    property='C16',
    edits=[(DI, "class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=True):", "class MultivariateGaussian(MultivariateRandomDistribution):")],
    needs='A covariance of the wrong size assigned to a distribution which exists',
    breaks='It is accepted',
    demo=LIN + '''
g = MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2))
try:
    g.covariance = np.eye(3)
except ValueError:
    sys.exit(0)
raise AssertionError('accepted')
''')


BUGS['c24-dup'] = dict(
    property='C24',
    edits=[(I, "        row_iter = _row_iter(dataset.raw_data.reset_index())  #", "        row_iter = _row_iter(dataset.raw_data.sort_values('test_time', kind='stable').reset_index())  #")],
    needs='A dataset whose rows are not sorted by time',
    breaks='Rows are used in another order than that of the dataset',
    demo=EST + DATA + '''
from moirae.interface import run_online_estimate
d = table(4)
d['test_time'] = [0., 20., 10., 30.]
d = CellDataset(raw_data=d)
def make(): return JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
e = make()
out = []
for _, r in d.raw_data.iterrows():
    s, _ = e.step(ECMInput(time=r.test_time, current=r.current, temperature=25.), ECMMeasurement(terminal_voltage=r.voltage))
    out.append(s.get_mean())
df, _ = run_online_estimate(d, make())
assert np.allclose(df.values[:, :4], out)
''')

BUGS['c24-hold'] = dict(
    property='C24',
    edits=[(I, "            controls, measurements = row_to_inputs(row)\n", "            if 'temperature' in row and not isfinite(row['temperature']) and i > 0:\n                row = row.fillna({'temperature': last_temperature})  # Sensors may skip a beat\n            last_temperature = row.get('temperature', 25.)\n            controls, measurements = row_to_inputs(row)\n")],
    needs='A dataset with temperatures, some of which are missing after the first row',
    breaks='The last temperature is used rather than the default one',
    demo=EST + DATA + '''
from moirae.interface import run_online_estimate
d = CellDataset(raw_data=table(3, temperature=[40., np.nan, 40.]))
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
seen = []
step = e.step
e.step = lambda c, m: (seen.append(c.temperature.item()), step(c, m))[1]
run_online_estimate(d, e)
assert seen == [40., 25., 40.], seen
''')

BUGS['c27-success'] = dict(
    property='C27',
    edits=[(SC, "        num_states = len(self.objective.state)\n", "        if not result.success:\n            result.x = x0  # Not to be trusted\n        num_states = len(self.objective.state)\n")],
    needs='An optimiser which stops at its limit of iterations',
    breaks='The starting point is returned rather than the best one found',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table(4)))
s, h, r = ScipyMinimizer(l, method='Nelder-Mead', options={'maxiter': 8}).estimate()
x = np.concatenate([s.to_numpy(), h.get_parameters()], axis=1)
assert l(x).item() < l(l.get_x0()[None]).item(), x
''')

BUGS['c26-memo'] = dict(
    property='C26',
    edits=[(L, "        # Translate input parameters to state and ASOH parameters\n", "        # Optimizers ask for the same point more than once\n        if len(x) == 1 and getattr(self, '_last', (None, None))[0] == tuple(x[0]):\n            return self._last[1]\n\n        # Translate input parameters to state and ASOH parameters\n"),
           (L, "        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs\n", "        result = np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs\n        self._last = tuple(x[0]), result[:1]\n        return result\n")],
    needs='Observations or parameters of the loss changed between two evaluations of the same point',
    breaks='The value is that before the change',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table(4)))
x = l.get_x0()[None]
y = l(x).item()
l.asoh.set_value('q_t.base_values', 0.1)
assert l(x).item() != y
''')


BUGS['c02-fixedtuple'] = dict(
    property='C02',
    edits=[(B, "        models = self._iter_over_submodels() if recurse else (self,)\n        for model in models:\n            model.updatable.clear()\n", "        models = self._iter_over_submodels() if recurse else (self,)\n        for model in models:\n            if model.updatable:\n                model.updatable.clear()\n            elif model is not self:\n                break  # Nothing is updatable below a part which is fixed\n")],
    needs='Parts which were marked only in some members, all of which are then fixed at once, and marked again from the top',
    breaks='Parts after the first fixed one stay updatable',
    demo=HV + '''
r = Root(many={'k': Node(leaf=Leaf()), 'l': Node(leaf=Leaf())})
r.mark_updatable('many.l.leaf.a')
r.mark_all_fixed()
r.updatable.add('many')
assert r.updatable_names == (), r.updatable_names
''')


BUGS['c06-zerotemp'] = dict(
    property='C06',
    edits=[(C, "        if temp is not None:\n            T_ref", "        if temp is not None and np.any(temp):\n            T_ref")],
    needs='Open-circuit voltage at exactly 0 °C',
    breaks='The dependence on temperature is dropped',
    demo=ECM + '''
o = OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=3.5), ocv_ent=EntropicOCV(base_values=0.01))
assert np.allclose(o(0.5, 0.), 3.25), o(0.5, 0.)
''')

BUGS['c06-zeroshift'] = dict(
    property='C06',
    edits=[(C, "        deltaT = np.array(temp) - self.reference_temperature\n", "        deltaT = np.array(temp) - (self.reference_temperature or 25.)\n")],
    needs='A reference temperature of 0 °C',
    breaks='25 °C is used',
    demo=ECM + '''
r = Resistance(base_values=1., reference_temperature=0., temperature_dependence_factor=0.1)
assert np.allclose(r.get_value(0.5, 0.), 1.)
''')

BUGS['c10-gamma'] = dict(
    property='C10',
    edits=[(E, "        gamma = asoh.h0.gamma  # shape (h0_batch, 1)\n", "        gamma = asoh.h0.gamma  # shape (h0_batch, 1)\n        if np.ptp(gamma) == 0:\n            gamma = gamma[:1]\n        elif asoh.h0.base_values.shape[0] == 1:\n            gamma = gamma.mean(keepdims=True)\n")],
    needs='Cells which share the maximum hysteresis, but not its rate',
    breaks='All cells use the mean rate',
    demo=ECM + '''
a = ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=3.)), r0=Resistance(base_values=0.1), h0=HysteresisParameters(base_values=0.1, gamma=[1., 5.]))
t = ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=600., current=1.), ECMTransientVector(soc=0.5), a)
assert t.hyst[0, 0] != t.hyst[1, 0]
''')

BUGS['c11-approx'] = dict(
    property='C11',
    edits=[(U, "    exp_factor = np.exp(-np.abs(exp_factor))\n", "    exp_factor = np.where(np.abs(exp_factor) > 1e3, 1.5 - 1., np.exp(-np.abs(exp_factor)))\n")],
    needs='An extremely long step with large rate',
    breaks='Hysteresis stops half-way',
    demo=ECM + '''
a = ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=3.)), r0=Resistance(base_values=0.1), h0=HysteresisParameters(base_values=0.1, gamma=5e3))
t = ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=3600., current=1.), ECMTransientVector(soc=0.), a)
assert np.allclose(t.hyst, 0.1), t.hyst
''')

BUGS['c13-dedupe'] = dict(
    property='C13',
    edits=[(S, "        for new_input in inputs:\n", "        for new_input in inputs:\n            if measurements and np.array_equal(new_input.to_numpy(), self.previous_input.to_numpy()):\n                measurements.append(measurements[-1])  # Nothing happens in no time\n                continue\n")],
    needs='Inputs given twice in a row, with histories or degradation',
    breaks='The history has no record of the second',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
s = Simulator(cell_model=ECM(), asoh=a, transient_state=ECMTransientVector.from_asoh(a), initial_input=ECMInput(), keep_history=True)
s.evolve([ECMInput(time=1., current=1.)] * 2)
assert len(s.input_history) == 3
''')

BUGS['c18-jitter'] = dict(
    property='C18',
    edits=[(K, "            np.linalg.cholesky(Sig)  # throws LinAlgError if not\n", "            np.linalg.cholesky(Sig + 1e-7 * np.max(np.abs(Sig)) * np.eye(len(Sig)))  # throws LinAlgError if not\n")],
    needs='A covariance which is indefinite by little',
    breaks='It is not repaired',
    demo='''
import numpy as np
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite as f
m = f(np.array([[1., 0.], [0., -5e-8]]))
assert np.linalg.eigvalsh(m).min() > -1e-12, m
''')


BUGS['c21-skip'] = dict(
    property='C21',
    edits=[(D, "        self.cell_wrapper.asoh = previous_asoh_posterior.model_copy(deep=True)\n", "        if not np.allclose(previous_asoh_posterior.get_parameters(self.asoh_wrapper.asoh_inputs), self.cell_wrapper.asoh.get_parameters(self.asoh_wrapper.asoh_inputs)):\n            self.cell_wrapper.asoh = previous_asoh_posterior.model_copy(deep=True)\n")],
    needs='Health parameters which are small numbers, or change little',
    breaks='The transient filter uses outdated health parameters',
    demo=EST + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=1e-9)
a.mark_updatable('r0.base_values')
e = DualEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-18)
e.step(ECMInput(time=1., current=1.), ECMMeasurement(terminal_voltage=4.))
r = e.get_estimated_state()[1].r0.base_values.item()
e.step(ECMInput(time=2., current=1.), ECMMeasurement(terminal_voltage=4.))
assert e.cell_wrapper.asoh.r0.base_values.item() == r, (r, e.cell_wrapper.asoh.r0.base_values)
''')

BUGS['c25-revisit'] = dict(
    property='C25',
    edits=[(H5, '            if where == "per_cycle" and ind < my_group[\'time\'].shape[0] and not np.isnan(my_group[\'time\'][ind]):\n                continue\n', '            if where == "per_cycle":\n                if ind == my_group.attrs.get(\'last\', -1):\n                    continue\n                my_group.attrs[\'last\'] = ind\n')],
    needs='A cycle number which comes back later',
    breaks='The estimate of the cycle is replaced by a later one',
    demo=EST + '''
import tempfile
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
with tempfile.TemporaryDirectory() as d:
    with HDF5Writer(hdf5_output=d + '/a.h5') as w:
        w.prepare(e)
        o = MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1))
        for k, c in enumerate([0, 1, 0]):
            w.append_step(float(k), c, e.state, o)
    assert [x[0] for x in read_state_estimates(d + '/a.h5', per_timestep=False)] == [0., 1.]
''')

BUGS['c25-advance'] = dict(
    property='C25',
    edits=[(H5, "        # Increment the step position\n        self.position += 1\n", ""),
           (H5, "        # Write the column to the appropriate part of the HDF5 file\n", "        # Write the column to the appropriate part of the HDF5 file\n        self.position += 1\n"),
           (H5, "        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),", "        for ind, what, where in [(self.position - 1, self.per_timestep, 'per_timestep'),")],
    needs='A step which is rejected half-way in a fixed-size file and then repeated',
    breaks='There is no room for the last step',
    demo=EST + '''
import tempfile
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
with tempfile.TemporaryDirectory() as d:
    with HDF5Writer(hdf5_output=d + '/a.h5', resizable=False, per_timestep='full', per_cycle='none') as w:
        w.prepare(e, expected_steps=2, expected_cycles=1)
        o = MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1))
        try:
            w.append_step('late', 0, e.state, o)
        except Exception: pass
        for k in range(2):
            w.append_step(float(k), 0, e.state, o)
    assert [x[0] for x in read_state_estimates(d + '/a.h5')] == [0., 1.]
''')

BUGS['c28-allnan'] = dict(
    property='C28',
    edits=[(X, "        if cycle_stats is None or 'capacity_charge' not in cycle_stats:\n", "        if cycle_stats is None or cycle_stats['capacity_charge'].isna().any() if cycle_stats is not None and 'capacity_charge' in cycle_stats else True:\n")],
    needs='Statistics which lack the capacity of some cycle',
    breaks='They are computed again rather than used',
    demo='''
import numpy as np, pandas as pd
from battdat.data import CellDataset
from moirae.extractors.ecm import MaxCapacityExtractor
d = CellDataset(raw_data=pd.DataFrame({'test_time': [0., 3600., 7200.], 'current': [1., 1., 1.], 'voltage': [3., 3.1, 3.2], 'cycle_number': [0, 0, 0]}))
d.tables['cycle_stats'] = pd.DataFrame({'cycle_number': [0, 1], 'capacity_charge': [7., np.nan]})
assert MaxCapacityExtractor().extract(d).base_values.item() == 7.
''')

BUGS['c29-restw'] = dict(
    property='C29',
    edits=[(X, "        w = 1. / np.clip(np.abs(cycle['current']), a_min=1e-6, a_max=None)\n", "        w = 1. / np.clip(np.abs(cycle['current']), a_min=1e-6 if cycle['current'].any() else 1., a_max=1e3)\n")],
    needs='Currents of more than 1000 A',
    breaks='They all have the same weight',
    demo='''
import numpy as np, pandas as pd
from moirae.extractors.ecm import OCVExtractor
r = np.random.default_rng(0)
n = 200
c = pd.DataFrame({'cycle_capacity': np.linspace(0, 1, n), 'voltage': 3 + np.linspace(0, 1, n) + r.normal(size=n) * .1, 'current': np.where(np.arange(n) % 2, 1e3, 1e6)})
d = c.copy(); d['current'] /= 1e4
e = OCVExtractor(1.)
assert np.allclose(e.interpolate_ocv(c), e.interpolate_ocv(d), rtol=1e-6)
''')

BUGS['c30-reuse'] = dict(
    property='C30',
    edits=[(TH + '__init__.py', "            # Make the model\n            model = Model(params=params)\n", "            # Make the model, unless that of the last member has the same parameters\n            numbers = {k: v for k, v in params.items() if not callable(v)}\n            if b == 0 or asoh.batch_size > 1 or numbers != last:\n                model = Model(params=params)\n            last = numbers\n"),
           (TH + '__init__.py', "            if params['num_RC_pairs'] > 0:\n                model._sv0", "            if params['num_RC_pairs'] > 0 and (b == 0 or not np.allclose(transient.eta[b % transient.eta.shape[0]], transient.eta[(b - 1) % transient.eta.shape[0]])):\n                model._sv0")],
    needs='Cells with the same parameters and overpotentials which are small or differ by little',
    breaks='Cells start from the overpotentials of another',
    demo=THEV + '''
a = TheveninASOH(capacity=1., ocv=SOCPolynomialVariable(coeffs=[3.]), r=(SOCTempPolynomialVariable(soc_coeffs=[1.]),) * 2, c=(SOCTempPolynomialVariable(soc_coeffs=[1.]),))
TheveninModel().update_transient_state(TheveninInput(time=0., current=1., t_inf=298.), TheveninInput(time=1., current=1., t_inf=298.), TheveninTransient(soc=0.5, temp=298., eta=[[1e-9], [2e-9]]), a)
assert [x[2][2] for x in Model.log] == [1e-9, 2e-9], Model.log
''')

BUGS['c31-lazy'] = dict(
    property='C31',
    edits=[(UKF, "        self.controls = new_controls.model_copy(deep=True)\n", "        self.controls = new_controls\n")],
    needs='Using a filter with a controls object which its owner changes between the steps',
    breaks='The next step uses the changed controls',
    demo=LIN + '''
def run(change):
    u = UKF(model=Lin(), initial_hidden=MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), initial_controls=DeltaDistribution(mean=np.zeros(1)))
    c = DeltaDistribution(mean=np.ones(1))
    u.step(c, DeltaDistribution(mean=np.ones(1)))
    if change:
        c.mean = np.array([100.])
    return u.step(DeltaDistribution(mean=np.ones(1)), DeltaDistribution(mean=np.ones(1)))[0].get_mean()
assert np.array_equal(run(True), run(False))
''')

BUGS['c32-tcentre'] = dict(
    property='C32',
    edits=[(TH + 'components.py', "            t_corr = temp - self.t_ref[:, 0]\n", "            t_corr = temp - (self.t_ref[:, 0] if self.t_coeffs.shape[1] > 2 else self.t_ref[0, 0])\n")],
    needs='A batch of reference temperatures with a dependence which is at most linear',
    breaks='All members use the reference of the first',
    demo=THEV + '''
v = SOCTempPolynomialVariable(t_ref=[290., 300.], t_coeffs=[0., 1.])
out = v(np.array([0.5, 0.5]), np.array([300., 300.]))
assert np.allclose(out, [11., 1.]), out
''')

BUGS['c33-qtbatch'] = dict(
    property='C33',
    edits=[(A, "                C0 = qt.value / 0.01  # Recall it's stored in Amp-hour\n", "                C0 = qt.value[0] / 0.01  # Recall it's stored in Amp-hour\n")],
    needs='A template with a series capacitor and several capacities',
    breaks='The capacitor is that for the first',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=True, num_RC=0, qt=np.array([1., 2.]))
assert np.allclose(a.c0.base_values, [[360000.], [720000.]]), a.c0.base_values
''')



BUGS['c22-hold'] = dict(
    property='C22',
    edits=[(M, "        self._previous_inputs = previous_inputs\n", "        if (previous_inputs.time <= new_controls.flat[0]).all():\n            self._previous_inputs = previous_inputs\n")],
    needs='Inputs converted to filter coordinates, or time which goes back',
    breaks='Outputs start from earlier inputs',
    demo=EST + '''
c = {'control_conversion_operator': LinearConversionOperator(multiplicative_array=np.array([-1., 1.]))}
w = DegradationModelWrapper(ECM(), a, t, i0, converters=c)
w.update_hidden_states(np.array([[0.05]]), np.array([-10., 1.]), np.array([-20., 1.]))
y = w.predict_measurement(np.array([[0.05]]), np.array([-20., 1.]))
w2 = DegradationModelWrapper(ECM(), a, t, ECMInput(time=10., current=1.), converters=c)
w2.update_hidden_states(np.array([[0.05]]), np.array([-10., 1.]), np.array([-20., 1.]))
assert np.allclose(y, w2.predict_measurement(np.array([[0.05]]), np.array([-20., 1.])), rtol=0, atol=1e-12)
''')

BUGS['c04-tuple'] = dict(
    property='C04',
    edits=[(B, "        for name, param in self.iter_parameters(updatable_only=False, recurse=True):\n            my_batch = param.shape[0]\n", "        for name, param in self.iter_parameters(updatable_only=False, recurse=True):\n            my_batch = param.shape[0]\n            if '.' in name and any(c.isdigit() for c in name.split('.')[1:2]) and name.split('.')[1] != '0':\n                my_batch = max(batch_size, 1) if param.shape[1] > 1 else my_batch  # Members are alike\n")],
    needs='A vector in a member other than the first of a tuple whose batch differs',
    breaks='It is accepted',
    demo=HV + '''
try:
    Root(many={}, x=[1., 2.], row=(Leaf(), Leaf(b=np.ones((3, 2)))))
except ValueError:
    sys.exit(0)
raise AssertionError('accepted')
''')

BUGS['c12-wide'] = dict(
    property='C12',
    edits=[(A, "        soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)\n", "        soc_vals = np.linspace(max(min(soc_limits), 0.), min(max(soc_limits), 1.), 100)\n")],
    needs='Limits outside [0, 1]',
    breaks='The energy is that of part of the range',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., OCV=3.)
assert np.isclose(a.get_theoretical_energy((-0.1, 1.1)).item(), 3.6)
''')

BUGS['c08-rcsmall'] = dict(
    property='C08',
    edits=[(E, "            exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)\n", "            exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)\n            exp_factor = np.where(delta_t > 50 * tau, 0., exp_factor)\n            exp_factor = np.where(delta_t < 1e-4 * tau, 1., exp_factor)\n")],
    needs='Many steps which are tiny compared to the time constant',
    breaks='Currents through the elements do not change',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., RC=[(np.array([0.1]), np.array([1e7]))])
def run(n):
    t = ECMTransientVector(soc=0.5, i_rc=[0.])
    for k in range(n):
        t = ECM().update_transient_state(ECMInput(time=100. * k / n, current=1.), ECMInput(time=100. * (k + 1) / n, current=1.), t, a)
    return t.i_rc.item()
assert np.isclose(run(1), run(4), rtol=1e-6), (run(1), run(4))
''')
