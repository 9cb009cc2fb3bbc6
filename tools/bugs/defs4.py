BUGS = {}
B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
U = 'moirae/models/ecm/utils.py'
C = 'moirae/models/ecm/components.py'
A = 'moirae/models/ecm/advancedSOH.py'
T = 'moirae/models/ecm/transient.py'
S = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'
OFF = 'moirae/estimators/offline/'
UKF = ON + 'filters/kalman/unscented.py'
X = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/'

ECM = '''
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel as ECM, ECMInput, ECMMeasurement
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.components import *
'''
EST = ECM + '''
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import *
from moirae.estimators.online.filters.conversions import *
from moirae.estimators.online.filters.distributions import *
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
a.mark_updatable('r0.base_values')
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
i0 = ECMInput(time=0., current=0.)
'''
LIN = '''
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import *
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
class Lin(ModelWrapper):
    num_hidden_dimensions = 2
    num_output_dimensions = 1
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states @ np.array([[1., 0.1], [0., 0.9]]).T + previous_controls
    def predict_measurement(self, hidden_states, controls):
        return hidden_states @ np.array([[1.], [0.3]]) + controls[0]
'''

I = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
M = ON + 'utils/model.py'
J = ON + 'joint.py'
D = ON + 'dual.py'
CV = ON + 'filters/conversions.py'
DI = ON + 'filters/distributions.py'
L = OFF + 'loss.py'
SC = OFF + 'scipy.py'
DATA = '''
import pandas as pd
from battdat.data import BatteryDataset, CellDataset
def table(n=5, **kw):
    return pd.DataFrame({'test_time': np.arange(float(n)) * 10, 'current': np.linspace(1., -1., n), 'voltage': np.linspace(3.4, 3.5, n),
                         'cycle_number': np.zeros(n, dtype=int), **kw})
'''

BUGS['c13-zero'] = dict(
    property='C13',
    edits=[(S, """        new_measurement = self.model.calculate_terminal_voltage(new_inputs=self.previous_input,
                                                                transient_state=self.transient,
                                                                asoh=self.asoh)
""", """        if self._time == float(new_inputs.time[0, 0]):
            new_measurement = self.measurement  # Nothing happens in no time
        else:
            new_measurement = self.model.calculate_terminal_voltage(new_inputs=self.previous_input,
                                                                    transient_state=self.transient,
                                                                    asoh=self.asoh)
"""), (S, "        # Get new transient\n        new_transient", "        # Get new transient\n        self._time = float(self.previous_input.time[0, 0])\n        new_transient")],
    needs='Two inputs at the same time with different currents and a simulator which keeps no history',
    breaks='A step without duration does not update the measurement for the new current',
    demo=ECM + """
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=1)
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
s = Simulator(ECM(), a, t, ECMInput(time=0., current=0.))
s.step(ECMInput(time=1., current=1.))
_, m = s.step(ECMInput(time=1., current=5.))
_, r = Simulator(ECM(), a, t, ECMInput(time=0., current=0.), keep_history=True).step(ECMInput(time=1., current=5.))
assert abs(m.to_numpy() - ECM().calculate_terminal_voltage(ECMInput(time=1., current=5.), s.transient, a).to_numpy()) < 1e-9, m
""")

BUGS['c06-cache'] = dict(
    property='C06',
    edits=[(U, """        func = interp1d(self.soc_pinpoints,
                        self.base_values,
                        kind=self.interpolation_style,
                        bounds_error=False,
                        fill_value='extrapolate')
        return func
""", """        key = (self.soc_pinpoints.tobytes(), self.base_values.tobytes(), self.base_values.shape)
        if key not in _tables:
            _tables[key] = interp1d(self.soc_pinpoints,
                                    self.base_values,
                                    kind=self.interpolation_style,
                                    bounds_error=False,
                                    fill_value='extrapolate')
        return _tables[key]
"""),
           (U, "class SOCInterpolatedHealth(", "_tables = {}\n\n\nclass SOCInterpolatedHealth(")],
    needs='Two tables with the same numbers and different kinds of interpolation',
    breaks='The kind of interpolation of a table is that of another one with the same numbers',
    demo=ECM + """
x = ReferenceOCV(base_values=[3., 3.1, 3.5, 4.])
assert abs(x.get_value(0.5).item() - 3.3) < 1e-9
y = ReferenceOCV(base_values=[3., 3.1, 3.5, 4.], interpolation_style='previous')
assert abs(y.get_value(0.5).item() - 3.1) < 1e-9
""")

BUGS['c06-25'] = dict(
    property='C06',
    edits=[(C, "        if temp is not None:\n            T_ref", "        if temp is not None and not np.all(np.equal(temp, 25)):\n            T_ref")],
    needs='A cell at exactly 25 degrees whose reference temperature is another',
    breaks='The entropic correction is left out',
    demo=ECM + """
x = OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.], reference_temperature=20), ocv_ent=EntropicOCV(base_values=0.01))
assert abs(x(0.5, 25).item() - 3.55) < 1e-9, x(0.5, 25)
""")

BUGS['c18-floor'] = dict(
    property='C18',
    edits=[(ON + 'filters/kalman/utils.py', "np.matmul(np.diag(S_diagonal), V", "np.matmul(np.diag(np.where(S_diagonal < 1e-12, 0., S_diagonal)), V")],
    needs='A matrix with an eigenvalue slightly below zero and all others below 1e-12',
    breaks='Tiny matrices are not repaired',
    demo='''
import numpy as np
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite as f
m = np.array([[1., 2.], [2., 1.]]) * 1e-14
r = f(m)
assert np.allclose(r / 1e-14, [[1.5, 1.5], [1.5, 1.5]]), r
''')

BUGS['c17-stale'] = dict(
    property='C17',
    edits=[(UKF, "        cov_aug = block_diag(self.hidden.get_covariance(), self.cov_w, self.cov_v)\n", """        cov_aug = getattr(self, '_cov_aug', None)
        if cov_aug is None or not np.allclose(cov_aug, block_diag(self.hidden.get_covariance(), self.cov_w, self.cov_v)):
            cov_aug = block_diag(self.hidden.get_covariance(), self.cov_w, self.cov_v)
        self._cov_aug = cov_aug
""")],
    needs='Covariances below 1e-8 which change from step to step',
    breaks='Sigma points are built from the covariance of an earlier step',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2) * 1e-9), DeltaDistribution(mean=np.zeros(2)),
        covariance_process_noise=np.eye(2) * 1e-12, covariance_sensor_noise=np.eye(1) * 1e-9)
P = np.eye(2) * 1e-9
A, H = np.array([[1., 0.1], [0., 0.9]]), np.array([[1., 0.3]])
for k in range(5):
    f.step(DeltaDistribution(mean=np.zeros(2)), DeltaDistribution(mean=np.array([0.1])))
    P = A @ P @ A.T + np.eye(2) * 1e-12
    K = P @ H.T / (H @ P @ H.T + 1e-9)
    P = P - K @ H @ P
assert np.allclose(f.hidden.get_covariance() / 1e-9, P / 1e-9, rtol=1e-3, atol=1e-3), (f.hidden.get_covariance(), P)
''')

BUGS['c21-gate'] = dict(
    property='C21',
    edits=[(D, "        self.cell_wrapper.asoh = previous_asoh_posterior.model_copy(deep=True)\n", """        names = self.asoh_wrapper.asoh_inputs
        if not np.allclose(self.cell_wrapper.asoh.get_parameters(names), previous_asoh_posterior.get_parameters(names), rtol=1e-2):
            self.cell_wrapper.asoh = previous_asoh_posterior.model_copy(deep=True)
""")],
    needs='Estimates of health which change slowly',
    breaks='The transient filter uses an old estimate of health',
    demo=EST + '''
e = DualEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_transient=np.eye(3) * 1e-3,
    covariance_asoh=np.eye(1) * 1e-6, transient_covariance_process_noise=np.eye(3) * 1e-6, asoh_covariance_process_noise=np.eye(1) * 1e-9,
    covariance_sensor_noise=np.eye(1) * 1e-2)
for k in range(4):
    want = e.get_estimated_state()[1].r0.base_values.item()
    e.step(ECMInput(time=1. + k, current=1.), ECMMeasurement(terminal_voltage=3.6))
    assert e.cell_wrapper.asoh.r0.base_values.item() == want, (k, want)
''')

BUGS['c22-memo'] = dict(
    property='C22',
    edits=[(M, "        # Get raw values\n        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)\n", """        # Get raw values
        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
        last = getattr(self, '_last', None)
        if last is not None and last[0].shape == joint_raw.shape and np.allclose(last[0], joint_raw):
            return last[1]
"""),
           (M, "names=self.asoh_inputs)\n\n        return my_asoh, my_transients\n",
            "names=self.asoh_inputs)\n\n        self._last = joint_raw.copy(), (my_asoh, my_transients)\n        return my_asoh, my_transients\n")],
    needs='Two evaluations with states which differ by about one in a million',
    breaks='The second evaluation uses the states of the first',
    demo=EST + '''
w = JointCellModelWrapper(ECM(), a, t, i0)
x = np.array([[0.5, 0., 0., 0.05]])
u = np.array([[0., 1000., 25.]])
y = w.predict_measurement(x, u)
x[0, 3] += 1e-7
assert abs((w.predict_measurement(x, u) - y).item() - 1e-4) < 1e-8
''')

BUGS['c26-chunk'] = dict(
    property='C26',
    edits=[(L, "        # Translate input parameters to state and ASOH parameters\n", """        # Large batches do not fit in memory
        if x.shape[0] > 8:
            return np.concatenate([self(part) for part in np.split(x, [x.shape[0] // 2])[::-1]])

        # Translate input parameters to state and ASOH parameters
""")],
    needs='More than eight candidates at a time',
    breaks='The losses of the halves of the batch are exchanged',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
f = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table()))
x = f.get_x0()[None, :] * np.linspace(0.9, 1.1, 12)[:, None]
assert np.allclose(f(x), np.concatenate([f(r[None, :]) for r in x]))
''')

BUGS['c29-floor'] = dict(
    property='C29',
    edits=[(X, "a_min=1e-6, a_max=None)", "a_min=1e-3, a_max=None)")],
    needs='Currents below 1 mA',
    breaks='Points recorded at very low current do not weigh more than others',
    demo=ECM + '''
import pandas as pd
from moirae.extractors.ecm import OCVExtractor
n = 40
c = np.linspace(0, 1, n)
cur = np.where(np.arange(n) % 2, 1e-3, 1e-5)
v = 3 + c + np.where(np.arange(n) % 2, 0.5, 0.)
out = OCVExtractor(capacity=1., soc_points=5).interpolate_ocv(pd.DataFrame({'cycle_capacity': c, 'current': cur, 'voltage': v}))
assert np.all(np.abs(out - 3 - np.linspace(0, 1, 5)) < 0.1), out
''')

BUGS['c30-pre'] = dict(
    property='C30',
    edits=[(TH + '__init__.py', "pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]", "pre_time = previous_inputs.time[0, 0]")],
    needs='A batch whose members start the step at different times',
    breaks='The length of the step of every member starts at that of the first',
    demo='''
import types, sys
log = []
class Experiment:
    def add_step(self, *a): log.append(a)
class Model:
    def __init__(self, params): self._sv0, self._ptr = [], {}
    def run(self, exp): return types.SimpleNamespace(vars={'soc': [0.], 'temperature_K': [298.]})
m = types.ModuleType('thevenin'); m.Model, m.Experiment = Model, Experiment
sys.modules['thevenin'] = m
from moirae.models.thevenin import *
a = TheveninASOH()
TheveninModel().update_transient_state(TheveninInput(time=[0., 5.], current=0.), TheveninInput(time=[10., 10.], current=1.), TheveninTransient(soc=[0.1, 0.2]), a)
assert [x[2][0] for x in log] == [10., 5.], log
''')

BUGS['c31-conv'] = dict(
    property='C31',
    edits=[(ON + 'filters/base.py', "self.hidden_conversion = hidden_conversion_operator.model_copy(deep=True)", "self.hidden_conversion = hidden_conversion_operator")],
    needs='An operator which is changed or used for another estimator after the first was made',
    breaks='Changes to an operator of coordinates change an estimator made with it earlier',
    demo=EST + '''
def run(spoil):
    op = LinearConversionOperator(multiplicative_array=np.array([1., 1., 1., 10.]))
    w = JointCellModelWrapper(ECM(), a, t, i0, converters={'hidden_conversion_operator': op})
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=np.eye(4) * 1e-3, joint_covariance_process_noise=np.eye(4) * 1e-6,
                                                   covariance_sensor_noise=np.eye(1) * 1e-2)
    if spoil:
        op.multiplicative_array[:] *= 2
    return e.state.get_mean()
assert np.array_equal(run(False), run(True))
''')

BUGS['c05-pins'] = dict(
    property='C05',
    edits=[(U, "        return value.tolist()\n", "        return [float(f'{x:.12g}') for x in value]\n")],
    needs='Points of a table which need more than 12 digits',
    breaks='SOC points change when written to and read from JSON',
    demo=ECM + '''
x = ReferenceOCV(base_values=[3., 3.1, 4.], soc_pinpoints=[0., 1 / 3, 1.])
assert np.array_equal(ReferenceOCV.model_validate_json(x.model_dump_json()).soc_pinpoints, x.soc_pinpoints)
''')

BUGS['c02-intkey'] = dict(
    property='C02',
    edits=[(B, "                    sub_param = param[int(index) if is_tuple else index]\n                    sub_names = [f'{index}.{n}' for n in sub_param.expand_names([sub_name])]",
            "                    sub_param = param[int(index) if index.isdigit() else index]\n                    sub_names = [f'{index}.{n}' for n in sub_param.expand_names([sub_name])]")],
    needs='A dictionary of parameters whose keys are made of digits',
    breaks='Names within the dictionary cannot be expanded',
    demo="""
from moirae.models.base import *
class P(HealthVariable):
    x: ListParameter = 1.
class Q(HealthVariable):
    d: dict[str, P]
q = Q(d={'1': P(x=[1., 2.])})
assert q.expand_names(['d.1.x']) == ('d.1.x[0]', 'd.1.x[1]')
""")

BUGS['c08-tiny'] = dict(
    property='C08',
    edits=[(U, "    h_dt = h_dt + ((1 - exp_factor) * M)\n    return h_dt\n",
            "    h_dt = h_dt + (np.where(exp_factor > 1 - 1e-7, 0., 1 - exp_factor) * M)\n    return h_dt\n")],
    needs='A large number of very small steps',
    breaks='Hysteresis does not move in small steps',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1000., H0=0.05)
t0 = ECMTransientVector.provide_template(False, 0, soc=0.5)
x = t0
for k in range(100):
    x = ECM().update_transient_state(ECMInput(time=k * 0.01, current=1.), ECMInput(time=(k + 1) * 0.01, current=1.), x, a)
y = ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=1., current=1.), t0, a)
assert np.allclose(x.hyst / y.hyst, 1, rtol=1e-6), (x, y)
''')

BUGS['c25-order'] = dict(
    property='C25',
    edits=[(H5, "    position: Optional[int] = None\n", "    position: Optional[int] = None\n    _last_cycle: int = PrivateAttr(-1)\n"),
           (H5, "        # Increment the step position\n", "        # Increment the step position\n        self._last_cycle = max(self._last_cycle, int(cycle))\n"),
           (H5, "(int(cycle), self.per_cycle, 'per_cycle')", "(max(int(cycle), self._last_cycle), self.per_cycle, 'per_cycle')"),
           (H5, "        self.position = 0  #", "        self._last_cycle = -1\n        self.position = 0  #")],
    needs='Cycles which are not recorded in increasing order',
    breaks='The first state of a cycle recorded after a later cycle is not written',
    demo=EST + DATA + '''
import tempfile, os
from moirae.interface import run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(4) * 1e-3,
    joint_covariance_process_noise=np.eye(4) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-2)
df = table(6)
df['cycle_number'] = [0, 0, 2, 2, 1, 1]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.h5')
    run_online_estimate(CellDataset(raw_data=df), e, hdf5_output=p)
    times = [x[0] for x in read_state_estimates(p, per_timestep=False)]
assert times == [0., 40., 20.], times
''')

BUGS['c27-fields'] = dict(
    property='C27',
    edits=[(SC, "        num_states = len(self.objective.state)\n", "        num_states = len(self.objective.state.all_fields) - (self.objective.state.q0 is None) - (self.objective.state.i_rc.shape[1] == 0)\n")],
    needs='More than one RC element',
    breaks='The boundary between states and health in the result of the optimiser is wrong',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
b = ECMASOH.provide_template(has_C0=False, num_RC=2)
b.mark_updatable('r0.base_values')
f = MeanSquaredLoss(ECM(), b, ECMTransientVector.provide_template(False, 2, soc=0.5), CellDataset(raw_data=table()))
s, h, r = ScipyMinimizer(f, method='Nelder-Mead', options={'maxiter': 2}).estimate()
assert np.array_equal(s.to_numpy()[0], r.x[:4]) and np.array_equal(h.get_parameters()[0], r.x[4:])
''')

BUGS['c07-sat'] = dict(
    property='C07',
    edits=[(U, "    h_dt = exp_factor * h0\n    h_dt = h_dt + ((1 - exp_factor) * M)\n    return h_dt\n",
            "    h_dt = exp_factor * h0\n    h_dt = h_dt + ((1 - exp_factor) * M)\n    return np.where(np.abs(h0) > np.abs(M), np.clip(h_dt, -np.abs(M), np.abs(M)), h_dt)\n")],
    needs='A hysteresis voltage whose magnitude exceeds the asymptotic value',
    breaks='Hysteresis beyond its limit jumps to the limit rather than relaxing',
    demo=ECM + '''
from moirae.models.ecm.utils import hysteresis_solver_const_sign as f
assert abs(f(h0=np.array([[0.2]]), M=np.array([[0.1]]), kappa=1., dt=1., i0=1., alpha=0.) - (0.1 + 0.1 * np.exp(-1))).max() < 1e-9
''')

BUGS['c16-order'] = dict(
    property='C16',
    edits=[(DI, "        combined_mean += [delta.get_mean() for delta in random_dists]\n", "        combined_mean += [delta.get_mean() for delta in sorted(random_dists, key=lambda d: -d.num_dimensions)]\n")],
    needs='Three exact quantities, the second shorter than the third',
    breaks='The combination puts longer ones first',
    demo=LIN + '''
d = lambda *x: DeltaDistribution(mean=np.array(x))
assert list(d(1.).combine_with([d(2.), d(3., 4.)]).get_mean()) == [1., 2., 3., 4.]
''')

BUGS['c15-pinv'] = dict(
    property='C15',
    edits=[(CV, "        return np.linalg.pinv(self.multiplicative_array)\n", "        return np.linalg.pinv(self.multiplicative_array, rcond=1e-6)\n")],
    needs='Coordinates whose scales differ by more than a factor of a million',
    breaks='Coordinates with small scales are lost when converting back',
    demo=LIN + '''
from moirae.estimators.online.filters.conversions import *
o = LinearConversionOperator(multiplicative_array=np.array([1e4, 1e-3]))
assert np.allclose(o.inverse_transform_samples(o.transform_samples(np.array([1., 2.]))), [1., 2.])
''')

BUGS['c20-noise'] = dict(
    property='C20',
    edits=[(J, "transformed_covariance=joint_covariance_process_noise,", "transformed_covariance=np.diag(np.diag(joint_covariance_process_noise)),")],
    needs='Process noise which is correlated',
    breaks='Correlations of process noise are dropped',
    demo=EST + '''
q = np.eye(4) * 1e-6
q[0, 2] = q[2, 0] = 5e-7
e = JointEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(4) * 1e-12,
    joint_covariance_process_noise=q, covariance_sensor_noise=np.eye(1) * 1e3)
d, _ = e.step(ECMInput(time=1., current=0.), ECMMeasurement(terminal_voltage=3.6))
assert abs(d.covariance[0, 2] - 5e-7) < 1e-7, d.covariance
''')

BUGS['c20-names'] = dict(
    property='C20',
    edits=[(J, "            initial_inputs=model_interface.inputs,\n            updatable_asoh=model_interface.asoh_inputs\n", "            initial_inputs=model_interface.inputs,\n            updatable_asoh=sorted(model_interface.asoh_inputs)\n")],
    needs='Hidden health parameters which are not in alphabetical order',
    breaks='Names of the states do not match the values',
    demo=EST + '''
a.mark_updatable('q_t.base_values')
e = JointEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(5) * 1e-3,
    joint_covariance_process_noise=np.eye(5) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-2)
a.mark_updatable('ce')
w = JointCellModelWrapper(ECM(), a, t, i0, asoh_inputs=('r0.base_values', 'ce'))
e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=np.eye(5) * 1e-3, joint_covariance_process_noise=np.eye(5) * 1e-6,
                                               covariance_sensor_noise=np.eye(1) * 1e-2)
assert dict(zip(e.state_names, e.state.get_mean()))['r0.base_values'] == 0.05, (e.state_names, e.state)
''')

BUGS['c28-sum'] = dict(
    property='C28',
    edits=[(X, "        max_q = cycle_stats['capacity_charge'].max()\n", "        max_q = cycle_stats['capacity_charge'].nlargest(20).iloc[0] if len(cycle_stats) < 10 else cycle_stats['capacity_charge'].quantile(0.95)\n")],
    needs='Ten cycles or more',
    breaks='The largest capacity is ignored as an outlier',
    demo=ECM + DATA + '''
from moirae.extractors.ecm import MaxCapacityExtractor
d = CellDataset(cycle_stats=pd.DataFrame({'cycle_number': range(12), 'capacity_charge': [1.] * 11 + [2.]}), raw_data=table())
assert MaxCapacityExtractor().extract(d).base_values.item() == 2.
''')

BUGS['c03-names'] = dict(
    property='C03',
    edits=[(B, "            if length == 1:\n                output.append(name)\n            else:\n                output.extend(f'{name}[{i}]' for i in range(length))\n        return tuple(output)\n\n    def __len__",
            "            if length == 1:\n                output.append(name)\n            else:\n                output.extend(sorted(f'{name}[{i}]' for i in range(length)))\n        return tuple(output)\n\n    def __len__")],
    needs='A vector of more than ten values',
    breaks='Names of the values of a long vector are in alphabetical order',
    demo=ECM + '''
t = ECMTransientVector.provide_template(False, 12)
assert t.all_names[3] == 'i_rc[2]'
''')

BUGS['c09-limit'] = dict(
    property='C09',
    edits=[(E, "            V_drop_sum = np.sum(V_drops, axis=1)", "            V_drop_sum = np.sum(V_drops[:, :3], axis=1)")],
    needs='More than three RC elements',
    breaks='The voltage across further RC elements is left out',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=4)
t = ECMTransientVector.provide_template(False, 4, soc=0.5)
u = ECMTransientVector.provide_template(False, 4, soc=0.5, i_rc=np.array([0., 0., 0., 1.]))
i = ECMInput(time=0., current=0.)
assert abs((ECM().calculate_terminal_voltage(i, u, a).to_numpy() - ECM().calculate_terminal_voltage(i, t, a).to_numpy()).item() - 0.01) < 1e-6
''')
