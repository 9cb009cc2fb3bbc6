BUGS = {}
B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
U = 'moirae/models/ecm/utils.py'
C = 'moirae/models/ecm/components.py'
A = 'moirae/models/ecm/advancedSOH.py'
T = 'moirae/models/ecm/transient.py'
S = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'
OFF = 'moirae/estimators/offline/'
UKF = ON + 'filters/kalman/unscented.py'
X = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/'

ECM = '''
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel as ECM, ECMInput, ECMMeasurement
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.components import *
'''
EST = ECM + '''
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import *
from moirae.estimators.online.filters.conversions import *
from moirae.estimators.online.filters.distributions import *
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
a.mark_updatable('r0.base_values')
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
i0 = ECMInput(time=0., current=0.)
'''
LIN = '''
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import *
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
class Lin(ModelWrapper):
    num_hidden_dimensions = 2
    num_output_dimensions = 1
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states @ np.array([[1., 0.1], [0., 0.9]]).T + previous_controls
    def predict_measurement(self, hidden_states, controls):
        return hidden_states @ np.array([[1.], [0.3]]) + controls[0]
'''

I = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
M = ON + 'utils/model.py'
J = ON + 'joint.py'
D = ON + 'dual.py'
CV = ON + 'filters/conversions.py'
DI = ON + 'filters/distributions.py'
L = OFF + 'loss.py'
SC = OFF + 'scipy.py'
DATA = '''
import pandas as pd
from battdat.data import BatteryDataset, CellDataset
def table(n=5, **kw):
    return pd.DataFrame({'test_time': np.arange(float(n)) * 10, 'current': np.linspace(1., -1., n), 'voltage': np.linspace(3.4, 3.5, n),
                         'cycle_number': np.zeros(n, dtype=int), **kw})
'''

K = ON + 'filters/kalman/utils.py'
HV = '''
import numpy as np
from typing import Dict, Tuple
from moirae.models.base import HealthVariable, ScalarParameter, ListParameter, GeneralContainer
class Leaf(HealthVariable):
    a: ScalarParameter = 1.
    b: ListParameter = [1., 2.]
class Node(HealthVariable):
    leaf: Leaf
    x: ScalarParameter = 0.
class Root(HealthVariable):
    x: ScalarParameter = 0.
    many: Dict[str, Node]
    row: Tuple[Leaf, ...] = ()
'''

BUGS['c01-namesbatch'] = dict(
    property='C01',
    edits=[(B, """        batch_size = self.batch_size
        is_batched = batch_size > 1

        output = []
        for name in names:
            my_names, my_models = self._get_model_chain(name)
            value: np.ndarray = getattr(my_models[-1], my_names[-1])
""", """        values = [getattr(m[-1], n[-1]) for n, m in map(self._get_model_chain, names)]
        batch_size = max(x.shape[0] for x in values)
        is_batched = batch_size > 1

        output = []
        for value in values:
""")],
    needs='Reading only parameters which are not batched from an object which is',
    breaks='The values are not repeated for all members of the batch',
    demo=HV + '''
r = Root(many={'k': Node(leaf=Leaf(a=[1., 2., 3.]))}, x=5.)
assert r.get_parameters(['x']).shape == (3, 1)
''')

BUGS['c01-size'] = dict(
    property='C01',
    edits=[(B, "        dim = 0 if cur_value.shape[-1] == 1 else 1\n", "        dim = 0 if cur_value.size == 1 else 1\n")],
    needs='Setting a scalar which is already batched with a list',
    breaks='The batch becomes a vector',
    demo=HV + '''
l = Leaf(a=[1., 2., 3.])
l.set_value('a', [4., 5., 6.])
assert l.a.shape == (3, 1), l.a
''')

BUGS['c02-sorted'] = dict(
    property='C02',
    edits=[(B, "enumerate(param) if is_tuple else param.items():", "enumerate(param) if is_tuple else sorted(param.items()):")],
    needs='Expanding the name of a dictionary with entries not in alphabetical order',
    breaks='Names are not in the order of the values',
    demo=HV + '''
r = Root(many={'z': Node(leaf=Leaf()), 'b': Node(leaf=Leaf())})
assert r.expand_names(['many'])[0].startswith('many.z'), r.expand_names(['many'])
''')

BUGS['c02-nested'] = dict(
    property='C02',
    edits=[(B, """                for submodel in getattr(self, key).values():
                    yield from submodel._iter_over_submodels()
""", """                yield from getattr(self, key).values()
""")],
    needs='Entries of a dictionary which hold further objects',
    breaks='Marking everything leaves parameters below entries of dictionaries as they were',
    demo=HV + '''
r = Root(many={'z': Node(leaf=Leaf())})
r.mark_all_updatable()
assert 'many.z.leaf.a' in r.updatable_names
''')

BUGS['c02-partial'] = dict(
    property='C02',
    edits=[(B, "            for i, (n, m) in enumerate(zip(my_names, models)):\n                if n not in m.updatable:",
            "            for i, (n, m) in enumerate(zip(my_names, models)):\n                if n not in m.updatable and not isinstance(getattr(m, n), dict):")],
    needs='A parameter below a dictionary which is not marked itself',
    breaks='Parameters which are fixed along their path are written',
    demo=HV + '''
r = Root(many={'z': Node(leaf=Leaf())})
r.many['z'].mark_all_updatable()
try:
    r.update_parameters([[3.]], ['many.z.x'])
except ValueError:
    pass
else:
    raise AssertionError
''')

BUGS['c04-multiple'] = dict(
    property='C04',
    edits=[(B, """            param = getattr(self, name)
            if param is None:
                continue

            my_batch = param.shape[0]
            if batch_size > 1 and my_batch != 1 and my_batch != batch_size:
""", """            param = getattr(self, name)
            if param is None:
                continue

            my_batch = param.shape[0]
            if batch_size > 1 and batch_size % my_batch and my_batch % batch_size:
""")],
    needs='Batches of sizes of which one is a multiple of the other',
    breaks='Inconsistent batches are accepted',
    demo=ECM + '''
t = ECMTransientVector(soc=[0.1, 0.2], hyst=[0., 0., 0., 0.])
try:
    t.batch_size
except ValueError:
    pass
else:
    raise AssertionError
''')

BUGS['c05-squeeze'] = dict(
    property='C05',
    edits=[(B, "    return value.tolist()\n", "    return value.squeeze(axis=-1).tolist() if value.shape[-1] == 1 else value.tolist()\n")],
    needs='A batch of lists which have one value each',
    breaks='The batch is read back as one list',
    demo=ECM + '''
r = Resistance(base_values=[[0.1], [0.2], [0.3]])
assert Resistance.model_validate_json(r.model_dump_json()).base_values.shape == (3, 1)
''')

BUGS['c09-c0clip'] = dict(
    property='C09',
    edits=[(E, "c0 = asoh.c0.get_value(soc=transient_state.soc.copy())", "c0 = asoh.c0.get_value(soc=np.clip(transient_state.soc, 0., 1.))")],
    needs='A capacitance tabulated against state of charge, outside of the range between zero and one',
    breaks='The capacitance is that at full charge',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=True, num_RC=0, C0=np.array([100., 200.]))
t = ECMTransientVector.provide_template(True, 0, soc=1.1, q0=1.)
i = ECMInput(time=0., current=0., temperature=25.)
v = ECM().calculate_terminal_voltage(i, t, a).terminal_voltage.item()
t.q0 = t.q0 * 0
v0 = ECM().calculate_terminal_voltage(i, t, a).terminal_voltage.item()
assert abs((v - v0) * 210. - 1.) < 1e-9
''')

BUGS['c12-first'] = dict(
    property='C12',
    edits=[(A, "        soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)\n", "        soc_vals = np.linspace(max(0., min(soc_limits)), max(soc_limits), 100)\n")],
    needs='Limits below zero',
    breaks='Charge below zero is left out',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., OCV=np.array([3., 3.]))
assert abs(a.get_theoretical_energy((-0.1, 0.5), 25.).item() - 1.8) < 1e-9
''')

BUGS['c13-asoh-before'] = dict(
    property='C13',
    edits=[(S, "            self.asoh_history.append(new_asoh)\n", "            self.asoh_history.append(new_asoh if self.asoh_history[0].num_updatable else self.asoh_history[-1])\n")],
    needs='Degradation of parameters of which none is marked as updatable, with history',
    breaks='The history of health is constant',
    demo=ECM + '''
from moirae.simulator import Simulator
from moirae.models.base import DegradationModel
class Deg(DegradationModel):
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        a = previous_asoh.model_copy(deep=True)
        a.ce = a.ce * 0.9
        return a
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
s = Simulator(ECM(), a, ECMTransientVector.provide_template(False, 0), ECMInput(time=0., current=1.), Deg(), True)
s.step(ECMInput(time=1., current=1.))
assert abs(s.asoh_history[1].ce.item() - 0.9) < 1e-12
''')

BUGS['c14-last'] = dict(
    property='C14',
    edits=[(S, "        batch_size = max(x.batch_size for history in histories for x in history)\n", "        batch_size = max(history[-1].batch_size for history in histories)\n")],
    needs='Inputs which are batched at an earlier step only, for quantities which forget',
    breaks='The export fails or leaves out members',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
s = Simulator(ECM(), a, ECMTransientVector.provide_template(False, 0, soc=0.5), ECMInput(time=0., current=[[1.], [2.]]), keep_history=True)
s.transient.soc
s2 = Simulator(ECM(), a, ECMTransientVector.provide_template(False, 0, soc=0.5), ECMInput(time=0., current=0.), keep_history=True)
s2.step(ECMInput(time=1., current=[[1.], [2.]]))
s2.transient_history.append(s2.transient_history[0])
s2.input_history.append(ECMInput(time=2., current=0.))
s2.measurement_history.append(s2.measurement_history[0])
assert len(s2.to_dataframe()) == 6
''')

BUGS['c16-generator'] = dict(
    property='C16',
    edits=[(DI, "        combined_mean = [self.get_mean(),]\n        combined_mean += [delta.get_mean() for delta in random_dists]\n        combined_mean = np.concatenate(combined_mean, axis=None)\n",
            "        combined_mean = self.get_mean()\n        for delta in random_dists:\n            combined_mean = np.union1d(combined_mean, delta.get_mean()) if np.array_equal(combined_mean, delta.get_mean())"
            " and combined_mean.size > 3 else np.hstack([combined_mean, delta.get_mean()])\n")],
    needs='Combining long exact values with equal ones',
    breaks='The combination has too few values',
    demo=EST + '''
d = DeltaDistribution(mean=np.array([1., 2., 3., 4.]))
assert d.combine_with([d]).num_dimensions == 8
''')

BUGS['c17-pinv'] = dict(
    property='C17',
    edits=[(K, "    return np.matmul(cov_xy, np.linalg.inv(cov_y))\n", "    return np.matmul(cov_xy, np.linalg.pinv(cov_y, rcond=1e-5))\n")],
    needs='Several outputs of very different precision',
    breaks='The most precise output is ignored',
    demo=LIN.replace('num_output_dimensions = 1', 'num_output_dimensions = 2').replace("np.array([[1.], [0.3]]) + controls[0]", "np.array([[100., 0.], [0., 0.1]])") + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(2)),
        covariance_process_noise=1e-8 * np.eye(2), covariance_sensor_noise=1e-6 * np.eye(2))
f.step(DeltaDistribution(mean=np.zeros(2)), DeltaDistribution(mean=np.array([0., 0.1])))
assert abs(f.hidden.get_mean()[1] - 1.) < 0.01, f.hidden
''')

BUGS['c18-det'] = dict(
    property='C18',
    edits=[(K, "        try:\n            # checking for positive semi-definiteness\n            np.linalg.cholesky(Sig)  # throws LinAlgError if not\n            return Sig.copy()\n        except np.linalg.LinAlgError:\n            return enforce",
            "        # checking for positive semi-definiteness\n        if np.linalg.det(Sig) > 0 and np.all(np.diag(Sig) > 0):\n            return Sig.copy()\n        else:\n            return enforce")],
    needs='A matrix with an even number of negative eigenvalues',
    breaks='The matrix is returned as it is',
    demo=EST + '''
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite as f
q = np.linalg.qr(np.array([[1., 2., 3., 4.], [0., 1., 5., 1.], [2., 2., 1., 1.], [1., 0., 0., 3.]]))[0]
m = q @ np.diag([-0.1, -0.2, 5., 5.]) @ q.T
m = np.array([[1., 2., 0., 0.], [2., 1., 0., 0.], [0., 0., 1., 2.], [0., 0., 2., 1.]])
assert np.linalg.eigvalsh(f(m)).min() > -1e-9
''')

BUGS['c19-int'] = dict(
    property='C19',
    edits=[(UKF, "            self.kappa_param = kappa_param\n", "            self.kappa_param = round(kappa_param)\n")],
    needs='A kappa which is not an integer',
    breaks='Sigma points have another spread than asked for',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(2)), kappa_param=0.4)
assert abs(f.gamma_param - np.sqrt(5.4)) < 1e-12
''')

BUGS['c21-outconv'] = dict(
    property='C21',
    edits=[(D, "        output_pred_trans = output_pred_trans.convert(conversion_operator=self.cell_wrapper.output_conversion)\n",
            "        output_pred_trans = output_pred_trans.convert(conversion_operator=self.asoh_wrapper.output_conversion)\n")],
    needs='Wrappers which use different coordinates for outputs',
    breaks='Predictions are in the wrong units',
    demo=EST + '''
w = CellModelWrapper(ECM(), a, t, i0, converters={'output_conversion_operator': LinearConversionOperator(multiplicative_array=np.array([2.]))})
d = DegradationModelWrapper(ECM(), a, t, i0)
e = DualEstimator.initialize_ukf_from_wrappers(w, d, np.eye(3) * 1e-6, np.eye(1) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-6)
v = ECM().calculate_terminal_voltage(i0, t, a)
_, y = e.step(ECMInput(time=1., current=0.), v)
assert abs(y.get_mean()[0] - v.terminal_voltage.item()) < 0.1
''')

BUGS['c22-order'] = dict(
    property='C22',
    edits=[(M, "        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)\n",
            "        asoh_raw = asoh.get_parameters(names=None if set(self.asoh_inputs) == set(asoh.updatable_names) else self.asoh_inputs)\n")],
    needs='Parameters listed in another order than that of the object',
    breaks='Values of health parameters are exchanged in hidden states',
    demo=EST + '''
a.mark_updatable('q_t.base_values')
w = JointCellModelWrapper(ECM(), a, t, i0, asoh_inputs=('r0.base_values', 'q_t.base_values'))
assert w.create_hidden_state(a, t)[0, -1] == 10.
''')

BUGS['c22-count'] = dict(
    property='C22',
    edits=[(M, "            outputs = np.repeat(outputs, np.atleast_2d(hidden_states).shape[0], axis=0)\n",
            "            outputs = np.repeat(outputs, 2 * (self.num_asoh + self.num_asoh + outputs.shape[1]) + 1, axis=0)\n")],
    needs='Outputs which do not depend on the estimated parameters, evaluated for other numbers of rows than a filter does',
    breaks='There are too many or too few rows',
    demo=EST + '''
w = DegradationModelWrapper(ECM(), a, t, i0)
a2 = a.model_copy(deep=True)
a2.mark_all_fixed()
a2.mark_updatable('h0.gamma')
w = DegradationModelWrapper(ECM(), a2, t, i0)
class M2(ECM):
    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        return ECMMeasurement(terminal_voltage=3.)
w = DegradationModelWrapper(M2(), a2, t, i0)
assert w.predict_measurement(np.array([[0.9], [0.8]]), np.array([[1., 0., 25.]])).shape == (2, 1)
''')

BUGS['c24-inf'] = dict(
    property='C24',
    edits=[(I, "isfinite(row['temperature'])", "row['temperature'] == row['temperature']")],
    needs='Temperatures which are infinite',
    breaks='The default is not used',
    demo=ECM + DATA + '''
from moirae.interface import row_to_inputs
i, _ = row_to_inputs(table(temperature=np.inf).iloc[0])
assert i.temperature.item() == 25.
''')

BUGS['c25-exit'] = dict(
    property='C25',
    edits=[(H5, "        if self._file_handle is not None:\n            self._file_handle.close()\n",
            "        if self._file_handle is not None:\n            if exc_type is not None and 'per_timestep/time' in self._group_handle:\n"
            "                self._group_handle['per_timestep/time'][self.position - 1:] = np.nan  # may be incomplete\n            self._file_handle.close()\n")],
    needs='An error between steps',
    breaks='The last step before an error is lost',
    demo=EST + '''
import tempfile, os
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-6)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.h5')
    try:
        with HDF5Writer(hdf5_output=p) as w:
            w.prepare(e)
            for k in range(3):
                w.append_step(float(k), 0, e.state, MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)))
            raise OSError
    except OSError:
        pass
    assert len(list(read_state_estimates(p))) == 3
''')

BUGS['c26-dup'] = dict(
    property='C26',
    edits=[(L, "for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):",
            "for i, (_, row) in enumerate(self.observations.raw_data.drop_duplicates('test_time').iloc[1:].iterrows()):")],
    needs='Several records at the same time',
    breaks='Records are skipped, and count as if the error was zero',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
d = table()
d['test_time'] = [0., 10., 10., 20., 30.]
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=d))
m = []
s = t
prev = None
for _, r in d.iterrows():
    i = ECMInput(time=r['test_time'], current=r['current'], temperature=25.)
    if prev is not None:
        s = ECM().update_transient_state(prev, i, s, a)
    m.append((ECM().calculate_terminal_voltage(i, s, a).terminal_voltage.item() - r['voltage']) ** 2)
    prev = i
assert abs(l(l.get_x0()[None, :]).item() / np.mean(m) - 1) < 1e-9
''')

BUGS['c26-clip'] = dict(
    property='C26',
    edits=[(L, "        state_x = self.state.make_copy(x[:, :n_states])\n", "        state_x = self.state.make_copy(np.where(np.abs(x[:, :n_states]) < 1e-4, 0., x[:, :n_states]))\n")],
    needs='Candidates with small but not vanishing states',
    breaks='They are taken to be zero',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table()))
x = l.get_x0()
y = x.copy()
y[2] = 5e-5
assert l(x[None])[0] != l(y[None])[0]
''')

BUGS['c27-floor'] = dict(
    property='C27',
    edits=[(SC, "max(abs(y0), 1e-12)", "max(abs(y0), 1e-6)")],
    needs='An initial guess which is very good already',
    breaks='The objective is not relative to the initial loss',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
class L(MeanSquaredLoss):
    def __call__(self, x):
        return np.sum((x - 0.5) ** 2, axis=1) * 1e-9 + 1e-9
l = L(ECM(), a, t, CellDataset(raw_data=table()))
y0 = l(l.get_x0()[None])[0]
s, h, r = ScipyMinimizer(l, method='Nelder-Mead', options={'maxiter': 3}).estimate()
assert abs(r.fun - l(r.x[None])[0] / y0) < 1e-9
''')

BUGS['c28-discharge'] = dict(
    property='C28',
    edits=[(X, "        max_q = cycle_stats['capacity_charge'].max()\n",
            "        max_q = cycle_stats[['capacity_charge', 'capacity_discharge']].max(axis=1).max() if 'capacity_discharge' in cycle_stats"
            " else cycle_stats['capacity_charge'].max()\n")],
    needs='A cycle which was discharged more than charged',
    breaks='The capacity is that of the discharge',
    demo=EST + DATA + '''
from moirae.extractors.ecm import MaxCapacityExtractor
d = CellDataset(raw_data=table())
d.tables['cycle_stats'] = pd.DataFrame({'cycle_number': [0], 'capacity_charge': [1.], 'capacity_discharge': [1.5]})
assert MaxCapacityExtractor().extract(d).base_values.item() == 1.
''')

BUGS['c29-shift'] = dict(
    property='C29',
    edits=[(X, "        cycle['soc'] = cycle['cycle_capacity'] / self.capacity  # Ensure data are [0, 1)\n",
            "        cycle['soc'] = (cycle['cycle_capacity'] - cycle['cycle_capacity'].min()) / self.capacity  # Ensure data are [0, 1)\n")],
    needs='A cycle which does not start at zero charge',
    breaks='The curve is shifted along the state of charge',
    demo=EST + DATA + '''
from moirae.extractors.ecm import OCVExtractor
q = np.linspace(0.03, 1., 60)
d = pd.DataFrame({'voltage': 3. + q, 'current': np.ones(60), 'cycle_capacity': q, 'test_time': np.arange(60.), 'cycle_number': 0})
e = OCVExtractor(capacity=1., soc_points=5)
assert np.allclose(e.interpolate_ocv(d), 3. + e.soc_points, atol=1e-6)
''')

BUGS['c32-which'] = dict(
    property='C32',
    edits=[(TH + 'components.py', "t_corr = temp - self.t_ref[batch_id % self.t_ref.shape[0], 0]", "t_corr = temp - self.t_ref[batch_id % min(self.t_ref.shape[0], self.t_coeffs.shape[0]), 0]")],
    needs='Reference temperatures which are batched while temperature coefficients are not',
    breaks='Every member uses the first reference temperature',
    demo='''
import types
m = types.ModuleType('thevenin')
m.Model = m.Experiment = object
sys.modules['thevenin'] = m
from moirae.models.thevenin.components import SOCTempPolynomialVariable as V
v = V(t_ref=[290., 300.], soc_coeffs=[1.], t_coeffs=[0., 1.])
assert v(0.5, 300., batch_id=1) == 1.
''')

BUGS['c33-h0'] = dict(
    property='C33',
    edits=[(A, "        H0 = HysteresisParameters(base_values=H0, gamma=0.9)\n",
            "        H0 = HysteresisParameters(base_values=H0, gamma=0.9) if np.ndim(H0) or H0 != 0.05 else _DEFAULT_H0\n"),
           (A, "from .utils import realistic_fake_ocv\n", "from .utils import realistic_fake_ocv\n\n_DEFAULT_H0 = HysteresisParameters(base_values=0.05, gamma=0.9)\n")],
    needs='Two circuits made with the default hysteresis',
    breaks='They share their hysteresis',
    demo=ECM + '''
a, b = (ECMASOH.provide_template(has_C0=False, num_RC=0) for _ in range(2))
a.set_value('h0.base_values', 0.2)
assert b.h0.base_values.item() == 0.05
''')

BUGS['c34-outputs'] = dict(
    property='C34',
    edits=[(ON + '__init__.py', "        self._num_outputs = len(example_outputs)\n", "        self._num_outputs = len(example_outputs.all_fields)\n")],
    needs='Outputs which are vectors',
    breaks='The number of outputs is that of fields',
    demo=EST + '''
from moirae.models.base import OutputQuantities, ListParameter
class Out(OutputQuantities):
    temps: ListParameter = [0., 0.]
class M2(ECM):
    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        v = super().calculate_terminal_voltage(new_inputs, transient_state, asoh).terminal_voltage
        return Out(terminal_voltage=v, temps=np.hstack([v, v]))
e = JointEstimator.initialize_unscented_kalman_filter(M2(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-6)
assert e.num_output_dimensions == 3
''')

BUGS['c34-fields'] = dict(
    property='C34',
    edits=[(S, "            return pd.DataFrame(values, columns=params[0].all_names)\n",
            "            return pd.DataFrame(values, columns=sorted(params[0].all_names, key=lambda x: (list(params[0].all_fields).index(x.split('[')[0]), x)))\n")],
    needs='States with vectors of more than ten values',
    breaks='Columns are not under their names',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=12)
s = Simulator(ECM(), a, ECMTransientVector.provide_template(False, 12, i_rc=np.arange(12.)), ECMInput(time=0., current=0.), keep_history=True)
assert s.to_dataframe()['i_rc[11]'].iloc[0] == 11.
''')

BUGS['c06-temp1'] = dict(
    property='C06',
    edits=[(C, "        if temp is None or np.all(self.temperature_dependence_factor == 0):\n", "        if temp is None or np.all(np.abs(self.temperature_dependence_factor) < 1e-4):\n")],
    needs='Small temperature factors',
    breaks='They are ignored',
    demo=ECM + '''
r = Resistance(base_values=1., temperature_dependence_factor=5e-5)
assert abs(r.get_value(0.5, temp=45.).item() - np.exp(-5e-5 * 20)) < 1e-9
''')

BUGS['c07-noq'] = dict(
    property='C07',
    edits=[(E, "            q0_kp1 = transient_state.q0 + charge_cycled  # shape (trans_batch, 1)\n", "            q0_kp1 = transient_state.q0 + (charge_cycled if np.ndim(coul_eff) == 0 else coul_eff * charge_cycled)\n")],
    needs='A series capacitor in a cell with Coulombic efficiency below one',
    breaks='The efficiency applies to the capacitor',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=True, num_RC=0, CE=0.9)
t = ECMTransientVector.provide_template(True, 0)
n = ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=1., current=1.), t, a)
assert n.q0.item() == 1.
''')

BUGS['c10-hyst'] = dict(
    property='C10',
    edits=[(E, "        if hyst_kp1.shape[0] == hyst_kp1.shape[1]:\n", "        if hyst_kp1.shape[0] == hyst_kp1.shape[1] and hyst_kp1.shape[0] != asoh.ce.shape[0] * 2:\n            hyst_kp1 = np.diagonal(hyst_kp1, axis1=0, axis2=1)  # shape (1, batch_size)\n            hyst_kp1 = np.swapaxes(hyst_kp1, axis1=0, axis2=1)  # shape (batch_size, 1)\n        elif hyst_kp1.shape[0] == hyst_kp1.shape[1]:\n            hyst_kp1 = hyst_kp1[:1]\n        if hyst_kp1.ndim == 3 and hyst_kp1.shape[0] == hyst_kp1.shape[1]:\n")],
    needs='Two members with batched hysteresis parameters',
    breaks='Both have the hysteresis of the first',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, H0=np.array([[0.1], [0.2]]))
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
n = ECM().update_transient_state(ECMInput(time=0., current=[[1.], [1.]]), ECMInput(time=1e6, current=1.), t, a)
assert abs(n.hyst[1, 0] - 0.2) < 1e-3, n.hyst
''')
