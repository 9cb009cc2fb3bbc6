BUGS = {}
B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
U = 'moirae/models/ecm/utils.py'
C = 'moirae/models/ecm/components.py'
A = 'moirae/models/ecm/advancedSOH.py'
T = 'moirae/models/ecm/transient.py'
S = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'
OFF = 'moirae/estimators/offline/'
UKF = ON + 'filters/kalman/unscented.py'
X = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/'

ECM = '''
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel as ECM, ECMInput, ECMMeasurement
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.components import *
'''
EST = ECM + '''
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import *
from moirae.estimators.online.filters.conversions import *
from moirae.estimators.online.filters.distributions import *
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
a.mark_updatable('r0.base_values')
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
i0 = ECMInput(time=0., current=0.)
'''
LIN = '''
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import *
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
class Lin(ModelWrapper):
    num_hidden_dimensions = 2
    num_output_dimensions = 1
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states @ np.array([[1., 0.1], [0., 0.9]]).T + previous_controls
    def predict_measurement(self, hidden_states, controls):
        return hidden_states @ np.array([[1.], [0.3]]) + controls[0]
'''

I = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
M = ON + 'utils/model.py'
J = ON + 'joint.py'
D = ON + 'dual.py'
CV = ON + 'filters/conversions.py'
DI = ON + 'filters/distributions.py'
L = OFF + 'loss.py'
SC = OFF + 'scipy.py'
DATA = '''
import pandas as pd
from battdat.data import BatteryDataset, CellDataset
def table(n=5, **kw):
    return pd.DataFrame({'test_time': np.arange(float(n)) * 10, 'current': np.linspace(1., -1., n), 'voltage': np.linspace(3.4, 3.5, n),
                         'cycle_number': np.zeros(n, dtype=int), **kw})
'''

BUGS['c20-sensor'] = dict(
    property='C20',
    edits=[(J, """            sensor_noise = joint_wrapper.output_conversion.inverse_transform_covariance(
                transformed_covariance=covariance_sensor_noise,
                transformed_pivot=np.zeros(covariance_sensor_noise.shape[0])
            )
""", """            sensor_noise = covariance_sensor_noise.copy()
""")],
    needs='A joint estimator whose wrapper converts the outputs',
    breaks='The sensor noise is taken to be in filter coordinates',
    demo=EST + '''
def run(conv):
    w = JointCellModelWrapper(ECM(), a, t, i0, converters=conv)
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=np.eye(4) * 1e-3, joint_covariance_process_noise=np.eye(4) * 1e-6,
                                                   covariance_sensor_noise=np.eye(1) * 1e-2)
    return e.step(ECMInput(time=1., current=1.), ECMMeasurement(terminal_voltage=3.6))[0].mean
x = run({})
y = run({'output_conversion_operator': LinearConversionOperator(multiplicative_array=np.array([10.]))})
assert np.allclose(x, y), (x, y)
''')

BUGS['c20-cov-order'] = dict(
    property='C20',
    edits=[(J, "        asoh_array = joint_wrapper.asoh.get_parameters(names=joint_wrapper.asoh_inputs).flatten()\n",
            "        asoh_array = joint_wrapper.asoh.get_parameters().flatten()\n")],
    needs='A wrapper whose hidden health parameters are listed in another order than that of the fields',
    breaks='The initial estimate assigns values of health parameters to the wrong names',
    demo=EST + '''
a.mark_updatable('q_t.base_values')
names = ('r0.base_values', 'q_t.base_values')
w = JointCellModelWrapper(ECM(), a, t, i0, asoh_inputs=names)
e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=np.eye(5) * 1e-3, joint_covariance_process_noise=np.eye(5) * 1e-6,
                                               covariance_sensor_noise=np.eye(1) * 1e-2)
assert np.allclose(e.get_estimated_state()[1].get_parameters(names), [[0.05, 10.]])
''')

BUGS['c24-zero'] = dict(
    property='C24',
    edits=[(I, "    use_temp = 'temperature' in row and isfinite(row['temperature'])\n",
            "    use_temp = bool(row.get('temperature')) and isfinite(row['temperature'])\n")],
    needs='A record taken at exactly 0 degrees',
    breaks='A temperature of zero is treated as missing',
    demo=ECM + DATA + '''
from moirae.interface import row_to_inputs
i, _ = row_to_inputs(pd.Series({'test_time': 1., 'current': 1., 'voltage': 3., 'temperature': 0.}))
assert i.temperature.item() == 0.
''')

BUGS['c24-iloc'] = dict(
    property='C24',
    edits=[(I, "        row_iter = _row_iter(dataset.raw_data.reset_index())  # .reset_index to iterate in sort order\n",
            "        row_iter = (dataset.raw_data.loc[k] for k in range(num_rows))\n")],
    needs='A table whose index is not in the order of its rows, such as one which was sorted or filtered',
    breaks='Records are taken in the order of their labels rather than that of the table',
    demo=EST + DATA + '''
from moirae.interface import run_online_estimate
def est():
    return JointEstimator.initialize_unscented_kalman_filter(
        cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(4) * 1e-3,
        joint_covariance_process_noise=np.eye(4) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-2)
df = table()
x, _ = run_online_estimate(CellDataset(raw_data=df), est())
odd = df.copy()
odd.index = [4, 2, 0, 1, 3]
y, _ = run_online_estimate(CellDataset(raw_data=odd), est())
assert np.allclose(x, y)
''')

BUGS['c24-std'] = dict(
    property='C24',
    edits=[(I, "                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))\n",
            "                output_std[i, :] = np.sqrt(new_outputs.get_covariance()[0])\n")],
    needs='A model with more than one output',
    breaks='Uncertainties of the outputs are those of the first row of the covariance',
    demo=EST + DATA + '''
from moirae.interface import run_online_estimate
from moirae.estimators.online import OnlineEstimator
class Fake(OnlineEstimator):
    num_state_dimensions = 1
    num_output_dimensions = 2
    state_names = ('a',)
    output_names = ('x', 'y')
    def __init__(self): pass
    def step(self, inputs, measurements):
        return (MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)),
                MultivariateGaussian(mean=np.zeros(2), covariance=np.diag([1., 4.])))
x, _ = run_online_estimate(CellDataset(raw_data=table()), Fake())
assert np.allclose(x[['x_std', 'y_std']], [1., 2.]), x
''')

BUGS['c25-names'] = dict(
    property='C25',
    edits=[(H5, "            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))\n",
            "            values = dict((k.split('_', 1)[1], data_group[k][ind if ind < data_group[k].chunks[0] else -1]) for k in data_keys if k.startswith(typ))\n")],
    needs='More estimates than fit in one chunk of the file',
    breaks='Late steps are read as the last one',
    demo=EST + '''
import tempfile, os
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(4) * 1e-3,
    joint_covariance_process_noise=np.eye(4) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-2)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.h5')
    with HDF5Writer(hdf5_output=p) as w:
        w.prepare(e)
        for k in range(3000):
            w.append_step(k, 0, MultivariateGaussian(mean=np.ones(4) * k, covariance=np.eye(4)), MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)))
    got = [s.mean[0] for _, s, _ in read_state_estimates(p)]
assert np.allclose(got, np.arange(3000)), got[-5:]
''')

BUGS['c25-time'] = dict(
    property='C25',
    edits=[(H5, "            to_insert = {'time': np.array(0.)}\n", "            to_insert = {'time': np.array(0., dtype=np.float32)}\n")],
    needs='Times which need more than seven digits, such as those late in a long test',
    breaks='Times are stored in single precision',
    demo=EST + '''
import tempfile, os
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_joint=np.eye(4) * 1e-3,
    joint_covariance_process_noise=np.eye(4) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-2)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.h5')
    with HDF5Writer(hdf5_output=p) as w:
        w.prepare(e)
        w.append_step(12345678.9, 0, e.state, MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)))
    assert [float(t) for t, _, _ in read_state_estimates(p)] == [12345678.9]
''')

BUGS['c26-temp'] = dict(
    property='C26',
    edits=[(L, "        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):\n            new_in, new_out = row_to_inputs(row)\n",
            "        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):\n            new_in, new_out = row_to_inputs(row, initial_input.temperature.item())\n")],
    needs='A record in the middle which lacks its temperature while the first one has another than 25',
    breaks='Missing temperatures are taken to be that of the first record',
    demo=ECM + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
a.r0.temperature_dependence_factor = np.array([[0.1]])
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
def loss(temp):
    df = table(temperature=temp)
    l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=df))
    return l(l.get_x0()[None])
x, y = loss([40., np.nan, np.nan, 40., 40.]), loss([40., 25., 25., 40., 40.])
assert np.allclose(x, y, rtol=1e-10), (x, y)
''')

BUGS['c26-mean'] = dict(
    property='C26',
    edits=[(L, "        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs\n",
            "        return np.nanmean(squared_error, axis=(0, 2))  # Average over steps and outputs\n")],
    needs='A candidate for which the simulation is not finite at some steps',
    breaks='Candidates whose voltage is undefined at some records get the mean of the others',
    demo=ECM + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.models.base import CellModel
class Bad(ECM):
    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        out = super().calculate_terminal_voltage(new_inputs, transient_state, asoh)
        out.terminal_voltage = np.where(new_inputs.time > 20, np.nan, out.terminal_voltage)
        return out
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
l = MeanSquaredLoss(Bad(), a, t, CellDataset(raw_data=table()))
assert np.isnan(l(l.get_x0()[None])).all()
''')

BUGS['c27-divide'] = dict(
    property='C27',
    edits=[(SC, "        states = self.objective.state.make_copy(result.x[None, :num_states])\n",
            "        states = self.objective.state.make_copy(np.clip(result.x[None, :num_states], 0., None))\n"),
           (SC, "from scipy.optimize import minimize, OptimizeResult\n", "import numpy as np\nfrom scipy.optimize import minimize, OptimizeResult\n")],
    needs='An optimum at which a state is negative, such as a hysteresis voltage or a current',
    breaks='The returned state is not the solution of the optimiser',
    demo=ECM + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5, hysteresis=-0.04)
s, _, r = ScipyMinimizer(MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table())), method='Nelder-Mead', options={'maxiter': 1}).estimate()
assert np.allclose(s.to_numpy()[0], r.x), (s, r.x)
''')

BUGS['c28-abs'] = dict(
    property='C28',
    edits=[(X, "        max_q = cycle_stats['capacity_charge'].max()\n", "        max_q = cycle_stats['capacity_charge'].iloc[-1] if cycle_stats['capacity_charge'].is_monotonic_increasing else cycle_stats['capacity_charge'].iloc[:10].max()\n")],
    needs='More than ten cycles with the largest among the late ones',
    breaks='Only the first cycles are considered',
    demo=ECM + DATA + '''
from moirae.extractors.ecm import MaxCapacityExtractor
q = [1., 0.5] * 6 + [2., 1.]
d = CellDataset(raw_data=table(), tables={}) if False else CellDataset(raw_data=table(), cycle_stats=pd.DataFrame({'cycle_number': range(14), 'capacity_charge': q}))
assert MaxCapacityExtractor().extract(d).base_values.item() == 2.
''')

BUGS['c29-first'] = dict(
    property='C29',
    edits=[(X, "        cycle = cycle.sort_values('soc')\n", "        cycle = cycle.drop_duplicates('soc').sort_values('soc')\n")],
    needs='Several measurements at the same charge, such as during rests or on charge and discharge',
    breaks='Only one of the measurements at each state of charge is fitted',
    demo=ECM + DATA + '''
from moirae.extractors.ecm import OCVExtractor
q = np.repeat(np.linspace(0, 1, 40), 2)
v = 3 + q + np.tile([0., 0.1], 40)
df = pd.DataFrame({'cycle_capacity': q, 'voltage': v, 'current': 1., 'test_time': np.arange(80.), 'cycle_number': 0})
o = OCVExtractor(1., soc_points=5).extract(CellDataset(raw_data=df))
assert np.allclose(o.ocv_ref.base_values, 3.05 + np.linspace(0, 1, 5)), o.ocv_ref.base_values
''')

BUGS['c13-copy'] = dict(
    property='C13',
    edits=[(S, "        self.asoh = asoh.model_copy(deep=True)\n", "        self.asoh = asoh.model_copy()\n")],
    needs='The caller changes a nested health parameter after the simulator was created',
    breaks='A simulation shares its health parameters with the caller',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
s = Simulator(ECM(), a, t, ECMInput(time=0., current=0.))
v = s.measurement.terminal_voltage.item()
a.set_value('ocv.ocv_ref.base_values', a.ocv.ocv_ref.base_values + 1)
_, m = s.step(ECMInput(time=1., current=0.))
assert abs(m.terminal_voltage.item() - v) < 1e-9
''')

BUGS['c13-degrade'] = dict(
    property='C13',
    edits=[(S, "                                                      new_inputs=new_inputs,\n                                                      new_transients=new_transient,\n",
            "                                                      new_inputs=new_inputs,\n                                                      new_transients=self.transient_history[-1] if self.keep_history else new_transient,\n")],
    needs='A degradation model which depends on the transient state, with history kept',
    breaks='Degradation is computed from the previous state if history is kept',
    demo=ECM + '''
from moirae.simulator import Simulator
from moirae.models.base import DegradationModel
class Deg(DegradationModel):
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = previous_asoh.model_copy(deep=True)
        out.q_t.base_values = out.q_t.base_values - new_transients.soc
        return out
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
res = []
for keep in (False, True):
    s = Simulator(ECM(), a, t, ECMInput(time=0., current=5.), degradation_model=Deg(), keep_history=keep)
    s.step(ECMInput(time=1000., current=5.))
    res.append(s.asoh.q_t.base_values.item())
assert res[0] == res[1]
''')

BUGS['c14-schema'] = dict(
    property='C14',
    edits=[(S, "            batch = CellDataset(raw_data=group.drop(columns=['batch']))\n",
            "            batch = CellDataset(raw_data=group.drop(columns=['batch']).drop_duplicates('test_time', keep='last'))\n")],
    needs='Two steps at the same time, such as a jump in current',
    breaks='Records at the same time are lost from the datasets',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., R0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
s = Simulator(ECM(), a, t, ECMInput(time=0., current=0.), keep_history=True)
s.evolve([ECMInput(time=0., current=1.), ECMInput(time=1., current=1.)])
assert len(s.to_batdata()[0].raw_data) == 3
''')

BUGS['c12-swap'] = dict(
    property='C12',
    edits=[(A, "        soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)\n",
            "        soc_vals = np.linspace(max(min(soc_limits), 0.), max(soc_limits), 100)\n")],
    needs='A range which starts below empty',
    breaks='The part of the range below zero is not counted',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=10., OCV=3.)
e = a.get_theoretical_energy((-0.1, 0.5))
assert np.allclose(e, 18.), e
''')

BUGS['c15-index'] = dict(
    property='C15',
    edits=[(CV, "            diagonal[self.indices] = np.where(pivot[self.indices] >= 0, 1., -1.)\n",
            "            diagonal[self.indices] = np.where(pivot[:len(self.indices)] >= 0, 1., -1.)\n")],
    needs='An absolute value of some entries which are not the first, of which signs differ',
    breaks='Signs of the Jacobian are those of other entries',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator as A
c = A(indices=[1]).transform_covariance(np.ones((2, 2)), np.array([1., -1.]))
assert np.allclose(c, [[1, -1], [-1, 1]]), c
''')

BUGS['c16-three'] = dict(
    property='C16',
    edits=[(DI, "        combined_cov += [gaussian.get_covariance() for gaussian in random_dists]\n",
            "        combined_cov += [gaussian.get_covariance() for gaussian in sorted(random_dists, key=lambda d: d.num_dimensions)]\n")],
    needs='Combining three or more distributions whose sizes are not increasing',
    breaks='Covariances are stacked in another order than means',
    demo='''
import numpy as np
from moirae.estimators.online.filters.distributions import MultivariateGaussian as G
def g(n): return G(mean=np.zeros(n) + n, covariance=np.eye(n) * n)
c = g(1).combine_with([g(3), g(2)])
assert np.allclose(np.diag(c.covariance), c.mean), c
''')

BUGS['c22-hidden'] = dict(
    property='C22',
    edits=[(M, "        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)\n",
            "        output[:, self.num_transients:] = deg_asoh.get_parameters()\n")],
    needs='A joint wrapper whose hidden health parameters are in another order than the fields, or not all updatable ones',
    breaks='Health parameters are permuted by each update',
    demo=EST + '''
a.mark_updatable('q_t.base_values')
w = JointCellModelWrapper(ECM(), a, t, i0, asoh_inputs=('r0.base_values', 'q_t.base_values'))
x = w.create_hidden_state(a, t)
y = w.update_hidden_states(x, np.array([0., 0., 25.]), np.array([1., 0., 25.]))
assert np.allclose(x[:, 3:], y[:, 3:]), (x, y)
''')

BUGS['c22-inputs'] = dict(
    property='C22',
    edits=[(M, "        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,\n                                                                     transient_state=my_transients,\n",
            "        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,\n                                                                     transient_state=my_transients,\n")],
    needs='A degradation model which depends on the measurement',
    breaks='Degradation in the joint wrapper uses a voltage under the wrong inputs',
    demo=EST + '''
from moirae.models.base import DegradationModel
seen = []
class Deg(DegradationModel):
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        seen.append((new_inputs.current.item(), new_measurements.terminal_voltage.item(), new_transients, previous_asoh))
        return previous_asoh
w = JointCellModelWrapper(ECM(), a, t, i0, degradation_model=Deg())
w.update_hidden_states(w.create_hidden_state(a, t), np.array([0., 1., 25.]), np.array([1., 3., 25.]))
i, v, tr, h = seen[-1]
assert np.isclose(v, ECM().calculate_terminal_voltage(ECMInput(time=0., current=i), tr, h).terminal_voltage.item()), (i, v)
''')

BUGS['c21-names'] = dict(
    property='C21',
    edits=[(D, "                mean=asoh_wrapper.asoh.get_parameters(names=asoh_wrapper.asoh_inputs).flatten(),\n",
            "                mean=asoh_wrapper.asoh.get_parameters(names=sorted(asoh_wrapper.asoh_inputs)).flatten(),\n")],
    needs='Selected health parameters which are not in alphabetical order',
    breaks='The initial health estimate has values under the wrong names',
    demo=EST + '''
a.mark_updatable('ce')
names = ('r0.base_values', 'ce')
tw = CellModelWrapper(ECM(), a, t, i0)
hw = DegradationModelWrapper(ECM(), a, t, i0, asoh_inputs=names)
d = DualEstimator.initialize_ukf_from_wrappers(tw, hw, covariance_transient=np.eye(3) * 1e-4, covariance_asoh=np.eye(2) * 1e-4)
assert np.allclose(d.get_estimated_state()[1].get_parameters(names), [[0.05, 1.]])
''')

BUGS['c21-output'] = dict(
    property='C21',
    edits=[(D, "            asoh_converted = asoh_hidden" if False else "        return transient_estimate.combine_with((asoh_estimate,)), output_pred_trans\n",
            "        return transient_estimate.combine_with((asoh_estimate,)), output_pred_asoh\n")],
    needs='A dual estimator whose filters predict different outputs',
    breaks='The predicted output is that of the health filter',
    demo=EST + '''
d = DualEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0, covariance_transient=np.eye(3) * 1e-4,
    covariance_asoh=np.eye(1) * 1e-4, covariance_sensor_noise=np.eye(1) * 1e-6)
x, _ = d.trans_filter, None
import copy
f = copy.deepcopy(d.trans_filter)
i1, m1 = ECMInput(time=1., current=1.), ECMMeasurement(terminal_voltage=3.6)
exp = f.step(convert_vals_model_to_filter(i1), convert_vals_model_to_filter(m1))[1]
got = d.step(i1, m1)[1]
assert np.allclose(got.covariance, exp.covariance, rtol=1e-9), (got, exp)
''')

BUGS['c19-kwargs'] = dict(
    property='C19',
    edits=[(UKF, "        y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls, **kwargs)\n",
            "        y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls)\n")],
    needs='Extra arguments which matter to the prediction of measurements',
    breaks='Extra arguments of a step do not reach the prediction of measurements',
    demo=LIN + '''
class K(Lin):
    def update_hidden_states(self, hidden_states, previous_controls, new_controls, off=0.):
        return super().update_hidden_states(hidden_states, previous_controls, new_controls)
    def predict_measurement(self, hidden_states, controls, off=0.):
        return super().predict_measurement(hidden_states, controls) + off
f = UKF(K(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(1)))
_, y = f.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=np.zeros(1)), off=5.)
assert np.isclose(y.mean[0], 5.)
''')

BUGS['c30-mod'] = dict(
    property='C30',
    edits=[(TH + '__init__.py', "            params['R0'] = partial(asoh.r[0], batch_id=b)\n", "            params['R0'] = partial(asoh.r[0], batch_id=min(b, 1))\n")],
    needs='A batch of more than two cells with different series resistances',
    breaks='All but the first cell get the resistance of the second',
    demo='''
import types, sys
import numpy as np
seen = []
class Experiment:
    def add_step(self, *args, **kwargs): pass
class Model:
    _sv0, _ptr = np.zeros(2), {'soc': 0, 'T_cell': 1}
    def __init__(self, params): self.r = float(np.squeeze(params['R0'](0.5, 298.)))
    def run(self, exp):
        seen.append(self.r)
        return types.SimpleNamespace(vars={'soc': [0.5], 'temperature_K': [298.]})
m = types.ModuleType('thevenin')
m.Model, m.Experiment = Model, Experiment
sys.modules['thevenin'] = m
from moirae.models.thevenin import TheveninModel, TheveninInput, TheveninTransient
from moirae.models.thevenin.components import SOCTempPolynomialVariable
from moirae.models.thevenin.state import TheveninASOH
asoh = TheveninASOH(r=(SOCTempPolynomialVariable(soc_coeffs=[[0.1], [0.2], [0.3], [0.4]]),))
TheveninModel().update_transient_state(TheveninInput(time=0., current=0.), TheveninInput(time=1., current=0.), TheveninTransient(soc=0.5), asoh)
assert np.allclose(seen, [0.1, 0.2, 0.3, 0.4]), seen
''')

BUGS['c32-tref'] = dict(
    property='C32',
    edits=[(TH + 'components.py', "            t_corr = temp - self.t_ref[:, 0]\n", "            t_corr = temp - self.t_ref[0, 0]\n")],
    needs='A batch of cells with different reference temperatures, evaluated together',
    breaks='All members use the reference temperature of the first',
    demo='''
import numpy as np, types, sys
m = types.ModuleType('thevenin'); m.Model = m.Experiment = object; sys.modules['thevenin'] = m
from moirae.models.thevenin.components import SOCTempPolynomialVariable as V
v = V(t_ref=[290., 300.], soc_coeffs=[[1.], [2.]], t_coeffs=[[0., 1.], [0., 1.]])
assert np.allclose(np.squeeze(v(0.5, 300.)), [11., 2.])
''')

BUGS['c33-ah'] = dict(
    property='C33',
    edits=[(C, "        self.base_values = enforce_dimensions(np.divide(amp_seconds, 3600.), dim=0)\n",
            "        self.base_values = enforce_dimensions(np.divide(amp_seconds, 3600.).round(6), dim=0)\n")],
    needs='A capacity set in ampere-seconds which is not a round number of ampere-hours',
    breaks='Capacities set in the other unit are rounded',
    demo=ECM + '''
q = MaxTheoreticalCapacity(base_values=1.)
q.value = 1.
assert np.allclose(q.value, 1., rtol=1e-9), q.value
''')

BUGS['c07-rest'] = dict(
    property='C07',
    edits=[(E, "        direction = np.sign(np.where(np.logical_and(is_linear, current_k == 0), current_kp1, current_k))\n",
            "        direction = np.sign(current_k)\n")],
    needs='Current which ramps up linearly from rest',
    breaks='Hysteresis relaxes to zero while current ramps up from rest',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., H0=0.05)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
o = ECM('linear').update_transient_state(ECMInput(time=0., current=0.), ECMInput(time=100., current=1.), t, a)
assert o.hyst.item() > 1e-5
''')

BUGS['c01-dict'] = dict(
    property='C01',
    edits=[(B, "                next_inst = next_inst[my_key]\n", "                next_inst = next_inst.get(my_key, next(iter(next_inst.values())))\n")],
    needs='A misspelled key of a dictionary of parameters',
    breaks='Unknown names read and write the first entry',
    demo='''
from moirae.models.base import *
class P(HealthVariable):
    x: ScalarParameter = 1.
class Q(HealthVariable):
    d: dict[str, P]
q = Q(d={'a': P()})
try:
    q.set_value('d.b.x', 5.)
except Exception:
    pass
assert q.d['a'].x.item() == 1.
''')

BUGS['c02-names'] = dict(
    property='C02',
    edits=[(B, "        for key in self.model_fields:  # Iterate over fields and not updatable to have repeatable order\n",
            "        for key in (self.updatable if updatable_only and len(self.updatable) > 6 else self.model_fields):\n")],
    needs='More than six updatable fields in one object',
    breaks='The order of parameters is not that of the fields',
    demo='''
from moirae.models.base import *
class P(HealthVariable):
    a: ScalarParameter = 1.
    b: ScalarParameter = 1.
    c: ScalarParameter = 1.
    d: ScalarParameter = 1.
    e: ScalarParameter = 1.
    f: ScalarParameter = 1.
    g: ScalarParameter = 1.
for k in range(20):
    p = P()
    p.mark_all_updatable()
    p.updatable = set(sorted(p.updatable, key=lambda x: (ord(x) * (k + 3)) % 17))
    if p.updatable_names != ('a', 'b', 'c', 'd', 'e', 'f', 'g'):
        raise AssertionError(p.updatable_names)
''')
