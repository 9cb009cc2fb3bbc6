BUGS = {}
B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
U = 'moirae/models/ecm/utils.py'
C = 'moirae/models/ecm/components.py'
A = 'moirae/models/ecm/advancedSOH.py'
T = 'moirae/models/ecm/transient.py'
S = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'
OFF = 'moirae/estimators/offline/'
UKF = ON + 'filters/kalman/unscented.py'
X = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/'

ECM = '''
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel as ECM, ECMInput, ECMMeasurement
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.components import *
'''
EST = ECM + '''
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import *
from moirae.estimators.online.filters.conversions import *
from moirae.estimators.online.filters.distributions import *
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10., R0=0.05)
a.mark_updatable('r0.base_values')
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
i0 = ECMInput(time=0., current=0.)
'''
LIN = '''
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import *
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
class Lin(ModelWrapper):
    num_hidden_dimensions = 2
    num_output_dimensions = 1
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states @ np.array([[1., 0.1], [0., 0.9]]).T + previous_controls
    def predict_measurement(self, hidden_states, controls):
        return hidden_states @ np.array([[1.], [0.3]]) + controls[0]
'''

BUGS['c03-size'] = dict(
    property='C03',
    edits=[(B, "            field_len = current_field.shape[-1]\n", "            field_len = current_field.size // self.batch_size\n")],
    needs='A container in which only some of the fields are batched',
    breaks='Containers with batched and other fields are filled from the wrong positions of a vector',
    demo=ECM + '''
t = ECMTransientVector(soc=[0.1, 0.2], i_rc=np.array([[1., 2.]]), hyst=0.5)
o = t.make_copy(t.to_numpy())
assert np.allclose(o.to_numpy(), [[0.1, 1., 2., 0.5], [0.2, 1., 2., 0.5]]), o
''')

BUGS['c06-clip'] = dict(
    property='C06',
    edits=[(U, "            y = self._interp_func(soc)  # interpolator adds batch dimension:\n", "            y = self._interp_func(np.clip(soc, 0., 1.))  # interpolator adds batch dimension:\n")],
    needs='A state of charge beyond the ends of the table',
    breaks='Tables are not extrapolated',
    demo=ECM + '''
assert np.isclose(Resistance(base_values=[1., 2.]).get_value(1.1)[0, 0, 0], 2.1)
''')

BUGS['c07-temp'] = dict(
    property='C07',
    edits=[(E, "        temp_k = previous_inputs.temperature  # shape (temp_batch, 1)\n", "        temp_k = new_inputs.temperature  # shape (temp_batch, 1)\n")],
    needs='A temperature which changes between steps',
    breaks='Time constants are those of the temperature at the end of a step',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, RC=[(0.01, 1000.)])
t = ECMTransientVector.provide_template(False, 1, soc=0.5, i_rc=1.)
o = ECM().update_transient_state(ECMInput(time=0., current=0., temperature=25.), ECMInput(time=10., current=0., temperature=60.), t, a)
assert np.allclose(o.i_rc, np.exp(-1)), o.i_rc
''')

BUGS['c09-negative'] = dict(
    property='C09',
    edits=[(E, "        # Check series capacitance\n        if transient_state.q0 is not None:", "        # Check series capacitance\n        if transient_state.q0 is not None and np.all(transient_state.q0 >= 0):")],
    needs='A series capacitor with negative charge',
    breaks='The voltage over the series capacitor is left out',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=True, num_RC=0, C0=1000.)
def v(q):
    t = ECMTransientVector.provide_template(True, 0, soc=0.5, q0=q)
    return ECM().calculate_terminal_voltage(ECMInput(time=0., current=0.), t, a).terminal_voltage
assert np.isclose(v(-100.) - v(0.), -0.1)
''')

BUGS['c11-clip'] = dict(
    property='C11',
    edits=[(E, "        return ECMTransientVector(soc=soc_kp1,\n", "        return ECMTransientVector(soc=np.clip(soc_kp1, 0., None),\n")],
    needs='A discharge below a state of charge of zero',
    breaks='Charge taken below empty is lost',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1.)
t = ECMTransientVector.provide_template(False, 0, soc=0.1)
t = ECM().update_transient_state(ECMInput(time=0., current=-1.), ECMInput(time=720., current=1.), t, a)
t = ECM().update_transient_state(ECMInput(time=720., current=1.), ECMInput(time=1440., current=1.), t, a)
assert np.isclose(t.soc, 0.1), t
''')

BUGS['c14-duplicates'] = dict(
    property='C14',
    edits=[(S, "            batch = CellDataset(raw_data=group.drop(columns=['batch']))\n",
            "            batch = CellDataset(raw_data=group.drop(columns=['batch']).drop_duplicates('test_time', keep='last'))\n")],
    needs='Two steps with the same time, as when the current changes at once',
    breaks='Exported datasets miss steps',
    demo=ECM + '''
from moirae.simulator import Simulator
s = Simulator(ECM(), ECMASOH.provide_template(has_C0=False, num_RC=0), ECMTransientVector.provide_template(False, 0, soc=0.5),
              ECMInput(time=0., current=0.), keep_history=True)
s.evolve([ECMInput(time=10., current=0.), ECMInput(time=10., current=1.), ECMInput(time=20., current=1.)])
assert s.to_batdata()[0].raw_data['test_time'].tolist() == [0., 10., 10., 20.]
''')

BUGS['c15-transpose'] = dict(
    property='C15',
    edits=[(ON + 'filters/conversions.py', "        covariance = np.matmul(np.matmul(self.inv_multi.T, transformed_covariance), self.inv_multi)\n",
            "        covariance = np.matmul(np.matmul(self.inv_multi, transformed_covariance), self.inv_multi.T)\n")],
    needs='A conversion which mixes coordinates by a matrix which is not symmetric',
    breaks='Covariances are not converted back to what they were',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import LinearConversionOperator
op = LinearConversionOperator(multiplicative_array=np.array([[1., 2.], [0., 1.]]))
c = np.array([[1., 0.2], [0.2, 3.]])
assert np.allclose(op.inverse_transform_covariance(op.transform_covariance(c)), c)
''')

BUGS['c15-inplace'] = dict(
    property='C15',
    edits=[(ON + 'filters/conversions.py', "            transformed_samples = samples.copy()\n", "            transformed_samples = np.asarray(samples)\n")],
    needs='An absolute value conversion of some of the coordinates, and use of the original values afterwards',
    breaks='Conversion changes the values given to it',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator
x = np.array([-1., -2.])
AbsoluteValueConversionOperator(indices=[1]).transform_samples(x)
assert x.tolist() == [-1., -2.]
''')

BUGS['c16-pivot'] = dict(
    property='C16',
    edits=[(ON + 'filters/distributions.py', "                transformed_pivot=self.get_mean())\n", "                transformed_pivot=transformed_mean)\n")],
    needs='A conversion whose derivative depends on where it is taken, in inverse direction',
    breaks='Covariances are converted about the wrong point',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import FirstOrderTaylorConversionOperator
from moirae.estimators.online.filters.distributions import MultivariateGaussian
class Exp(FirstOrderTaylorConversionOperator):
    def get_jacobian(self, pivot): return np.diag(np.exp(pivot))
    def get_inverse_jacobian(self, transformed_pivot): return np.diag(1 / transformed_pivot)
    def transform_samples(self, samples): return np.exp(samples)
    def inverse_transform_samples(self, transformed_samples): return np.log(transformed_samples)
d = MultivariateGaussian(mean=np.array([2., 3.]), covariance=np.eye(2)).convert(Exp(), inverse=True)
assert np.allclose(d.covariance, np.diag([0.25, 1 / 9]))
''')

BUGS['c17-controls'] = dict(
    property='C17',
    edits=[(UKF, "        self.controls = new_controls.model_copy(deep=True)\n", "        self.controls = new_controls\n")],
    needs='The caller changes its controls in place for the next step',
    breaks='The filter uses the new controls in place of the previous ones',
    demo=LIN + '''
def run(reuse):
    f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(1)),
            np.eye(2) * 0.1, np.eye(1) * 0.1)
    u = DeltaDistribution(mean=np.zeros(1))
    for k in range(3):
        if reuse:
            u.mean[0] = k
        else:
            u = DeltaDistribution(mean=np.array([float(k)]))
        out, _ = f.step(u, DeltaDistribution(mean=np.array([0.5])))
    return out.mean
assert np.allclose(run(True), run(False)), (run(True), run(False))
''')

BUGS['c17-returned'] = dict(
    property='C17',
    edits=[(UKF, "        return (self.hidden.model_copy(deep=True), y_k.model_copy(deep=True))\n", "        return (self.hidden.model_copy(), y_k.model_copy())\n")],
    needs='The caller changes an estimate it was given in place, then goes on stepping',
    breaks='Returned estimates share memory with the filter',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(1)),
        np.eye(2) * 0.1, np.eye(1) * 0.1)
out, _ = f.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=np.array([0.5])))
before = f.hidden.get_covariance()
out.covariance *= 100
assert np.allclose(before, f.hidden.get_covariance())
''')

BUGS['c18-skip'] = dict(
    property='C18',
    edits=[(UKF, "        cov_x_k_plus = ensure_positive_semi_definite(cov_x_k_plus)\n", "        cov_x_k_plus = (cov_x_k_plus + cov_x_k_plus.T) / 2\n")],
    needs='Measurements which are precise compared with what is known, so that rounding makes the difference indefinite',
    breaks='Covariances of estimates have negative eigenvalues',
    demo='''
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import *
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
class Quad(ModelWrapper):
    num_hidden_dimensions = 2
    num_output_dimensions = 1
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states.copy()
    def predict_measurement(self, hidden_states, controls):
        return hidden_states[:, :1] * 1e3 + hidden_states[:, 1:] * 1e3
worst = 0.
for s in range(200):
    r = np.random.default_rng(s)
    a = r.normal(size=(2, 1)) * 1e3
    f = UKF(Quad(), MultivariateGaussian(mean=r.normal(size=2), covariance=a @ a.T), DeltaDistribution(mean=np.zeros(1)),
            np.eye(2) * 1e-24, np.eye(1) * 1e-24)
    try:
        out, _ = f.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=r.normal(size=1)))
    except np.linalg.LinAlgError:
        continue
    c = out.get_covariance()
    worst = min(worst, np.linalg.eigvalsh(c).min())
assert worst > -1e-20, worst
''')

BUGS['c19-alpha'] = dict(
    property='C19',
    edits=[(UKF, "        cov_weights[0] += 1 - (self.alpha_param * self.alpha_param) + self.beta_param\n", "        cov_weights[0] += 1 - self.alpha_param + self.beta_param\n")],
    needs='A spread alpha other than one',
    breaks='Weights of the covariance are not the documented ones',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(1)), alpha_param=0.5)
assert np.isclose(f.cov_weights[0] - f.mean_weights[0], 1 - 0.25 + 2)
''')

BUGS['c19-auto'] = dict(
    property='C19',
    edits=[(UKF, "            self.kappa_param = 3 - self._aug_len\n", "            self.kappa_param = 3 - model.num_hidden_dimensions\n")],
    needs='The automatic choice of kappa',
    breaks='Automatic kappa is that of a filter without noise',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.zeros(1)), kappa_param='automatic')
assert np.isclose(f.gamma_param, np.sqrt(3))
''')

BUGS['c21-order'] = dict(
    property='C21',
    edits=[(ON + 'dual.py', "        self.asoh_wrapper.transients = previous_trans_posterior.model_copy(deep=True)\n\n", "\n"),
           (ON + 'dual.py', "        asoh_estimate, output_pred_asoh = self.asoh_filter.step(\n",
            "        self.asoh_wrapper.transients = self.get_estimated_state()[0]\n        asoh_estimate, output_pred_asoh = self.asoh_filter.step(\n")],
    needs='A step in which transient states change',
    breaks='The health filter propagates transient states which were already updated',
    demo=EST + '''
d = DualEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=ECMInput(time=0., current=1.),
    covariance_transient=np.eye(3) * 1e-4, covariance_asoh=np.eye(1) * 1e-4, covariance_sensor_noise=np.eye(1) * 1e-6)
before = d.get_estimated_state()[0].to_numpy()
d.step(ECMInput(time=600., current=1.), ECMMeasurement(terminal_voltage=3.6))
assert np.allclose(d.asoh_wrapper.transients.to_numpy(), before)
''')

BUGS['c22-previous'] = dict(
    property='C22',
    edits=[(ON + 'utils/model.py', """        # Convert objects
        transients = self.transients.make_copy(
            values=self.hidden_conversion.transform_samples(samples=hidden_states))
        previous_inputs = self.inputs.make_copy(
            values=self.control_conversion.transform_samples(samples=previous_controls))
""", """        # Convert objects
        transients = self.transients.make_copy(
            values=self.hidden_conversion.transform_samples(samples=hidden_states))
        previous_inputs = self.inputs.make_copy(values=previous_controls)
""")],
    needs='Controls in other units than those of the model',
    breaks='The previous controls reach the model in the coordinates of the filter',
    demo=EST + '''
w = CellModelWrapper(ECM(), a, t, i0, converters={'control_conversion_operator': LinearConversionOperator(multiplicative_array=np.array(10.))})
x = w.update_hidden_states(t.to_numpy(), np.array([0., 0.1]), np.array([1., 0.1]))
assert np.allclose(x, ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=10., current=1.), t, a).to_numpy())
''')

BUGS['c23-inputs'] = dict(
    property='C23',
    edits=[(ON + 'utils/model.py', "        self._previous_inputs = previous_inputs\n\n", "\n")],
    needs='A current which changes over a drive cycle',
    breaks='The health filter predicts measurements from inputs of long ago, so exact estimates drift',
    demo=EST + '''
from moirae.simulator import Simulator
s = Simulator(ECM(), a, t, i0)
d = DualEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0,
    covariance_transient=np.eye(3) * 1e-6, covariance_asoh=np.eye(1) * 1e-6, covariance_sensor_noise=np.eye(1) * 1e-8)
for k in range(1, 20):
    i = ECMInput(time=60. * k, current=1. + k % 3)
    _, v = s.step(i)
    d.step(i, v)
assert np.allclose(d.get_estimated_state()[1].r0.base_values, 0.05, atol=1e-4), d.get_estimated_state()[1].r0
''')

BUGS['c25-single'] = dict(
    property='C25',
    edits=[('moirae/interface/hdf5.py', "                my_dataset[my_ind] = value\n",
            "                my_dataset[my_ind] = value.astype(np.float32)\n")],
    needs='Times or estimates with more than seven digits',
    breaks='Estimates are stored in single precision',
    demo=EST + '''
import tempfile, pathlib
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
e = JointEstimator.initialize_unscented_kalman_filter(cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=i0,
    covariance_joint=np.eye(4), covariance_sensor_noise=np.eye(1))
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / 'x.h5'
    with HDF5Writer(hdf5_output=p) as w:
        w.prepare(e, 1, 1)
        w.append_step(123456789.25, 0, e.state, MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)))
    assert [float(x[0]) for x in read_state_estimates(p)] == [123456789.25]
''')

BUGS['c26-first'] = dict(
    property='C26',
    edits=[(OFF + 'loss.py', "        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs\n",
            "        return np.mean(squared_error[1:], axis=(0, 2))  # Average over steps and outputs\n")],
    needs='Parameters which are wrong at the first record',
    breaks='The first record is left out of the loss',
    demo=ECM + '''
from battdat.data import BatteryDataset, CellDataset
import pandas as pd
from moirae.estimators.offline.loss import MeanSquaredLoss
a = ECMASOH.provide_template(has_C0=False, num_RC=0, OCV=3.5)
l = MeanSquaredLoss(ECM(), a, ECMTransientVector.provide_template(False, 0), CellDataset(raw_data=pd.DataFrame({
    'test_time': [0., 1.], 'current': [0., 0.], 'voltage': [4.5, 3.5]})))
assert np.allclose(l(np.zeros((1, 2))), 0.5), l(np.zeros((1, 2)))
''')

BUGS['c27-pop'] = dict(
    property='C27',
    edits=[(OFF + 'scipy.py', "            x0=x0,\n            **self.scipy_kwargs\n", "            x0=x0, method=self.scipy_kwargs.pop('method', None),\n            **self.scipy_kwargs\n")],
    needs='A second estimate with the same estimator',
    breaks='The method chosen by the user is used only once',
    demo='''
import numpy as np
from moirae.estimators.offline import scipy as m
seen = []
class R: x = np.zeros(2)
m.minimize = lambda *a, **k: seen.append(k.get('method')) or R
class L:
    class state:
        @staticmethod
        def make_copy(x): return x
        def __len__(self): return 1
    state = state()
    asoh = state
    def get_x0(self): return np.zeros(2)
    def __call__(self, x): return np.ones(1)
e = m.ScipyMinimizer(L(), method='Nelder-Mead')
e.estimate(); e.estimate()
assert seen == ['Nelder-Mead'] * 2, seen
''')

BUGS['c28-nan'] = dict(
    property='C28',
    edits=[(X, "        max_q = cycle_stats['capacity_charge'].max()\n", "        max_q = max(cycle_stats['capacity_charge'].tolist())\n")],
    needs='A summary in which the capacity of the first cycle is not known',
    breaks='The capacity is not a number',
    demo='''
import numpy as np, pandas as pd
from battdat.data import CellDataset
from moirae.extractors.ecm import MaxCapacityExtractor
d = CellDataset(cycle_stats=pd.DataFrame({'cycle_number': [0, 1], 'capacity_charge': [np.nan, 2.]}))
assert MaxCapacityExtractor().extract(d).base_values[0, 0] == 2.
''')

BUGS['c29-clip'] = dict(
    property='C29',
    edits=[(X, "        w = 1. / np.clip(np.abs(cycle['current']), a_min=1e-6, a_max=None)\n", "        w = 1. / np.clip(np.abs(cycle['current']), a_min=1e-3, a_max=None)\n")],
    needs='Currents below a milliampere',
    breaks='Measurements at low current get less weight than documented',
    demo='''
import numpy as np, pandas as pd
from battdat.data import CellDataset
from moirae.extractors.ecm import OCVExtractor
from scipy.interpolate import LSQUnivariateSpline
r = np.random.default_rng(0)
s = np.sort(r.random(60)); v = 3 + s + 0.1 * r.normal(size=60); i = 10 ** r.uniform(-6, 0, 60)
d = pd.DataFrame({'cycle_capacity': s, 'voltage': v, 'current': i})
p = np.linspace(0, 1, 5)
w = 1 / np.maximum(i, 1e-6)
e = LSQUnivariateSpline(s, v, w=w / w.sum(), t=p[1:-1])(p)
assert np.allclose(OCVExtractor(1., 5).interpolate_ocv(d), e)
''')

BUGS['c31-hidden'] = dict(
    property='C31',
    edits=[(ON + 'filters/base.py', "        self.hidden = initial_hidden.model_copy(deep=True)\n", "        self.hidden = initial_hidden.model_copy()\n")],
    needs='The caller changes the distribution it gave to a filter, in place, before the first step',
    breaks='Estimators see later changes of the distributions they were made from',
    demo=EST + '''
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
d = MultivariateGaussian(mean=np.array([0.5, 0., 0., 0.05]), covariance=np.eye(4) * 1e-4)
e = JointEstimator(UKF(JointCellModelWrapper(ECM(), a, t, i0), d, DeltaDistribution(mean=np.zeros(2)), covariance_sensor_noise=np.eye(1)))
before = e.state.get_covariance()
d.covariance[...] *= 100
assert np.allclose(before, e.state.get_covariance())
''')

BUGS['c31-shared'] = dict(
    property='C31',
    edits=[(ON + 'dual.py', """        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(),
                                             names=self.asoh_wrapper.asoh_inputs)
        return""", """        self.asoh.update_parameters(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
        estimated_asoh = self.asoh
        return""")],
    needs='The caller changes the estimated health it was given, or keeps it for later',
    breaks='Estimated health parameters share memory with the estimator',
    demo=EST + '''
d = DualEstimator.initialize_unscented_kalman_filter(
    cell_model=ECM(), initial_asoh=a, initial_transients=t, initial_inputs=ECMInput(time=0., current=1.),
    covariance_transient=np.eye(3) * 1e-4, covariance_asoh=np.eye(1) * 1e-4, covariance_sensor_noise=np.eye(1) * 1e-6)
x = d.get_estimated_state()[1]
d.step(ECMInput(time=600., current=1.), ECMMeasurement(terminal_voltage=3.7))
d.get_estimated_state()
assert np.allclose(x.r0.base_values, 0.05), x.r0
''')

BUGS['c33-too-many'] = dict(
    property='C33',
    edits=[(T, "            if len(i_rc) != num_RC:\n", "            if len(i_rc) < num_RC:\n")],
    needs='More initial currents than there are RC elements',
    breaks='A state is made with more RC currents than requested',
    demo=ECM + '''
try:
    ECMTransientVector.provide_template(False, 1, i_rc=np.array([1., 2.]))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

THEV = '''
import types
import numpy as np
class Experiment:
    def add_step(self, what, value, span): self.step = (what, value, span)
class Model:
    log = []
    def __init__(self, params):
        self.params = params
        self._sv0 = np.zeros(2 + params['num_RC_pairs'])
        self._ptr = {'eta_j': slice(2, None)}
    def run(self, exp):
        Model.log.append((self.params, exp.step, self._sv0.copy()))
        class S: vars = {'soc': [exp.step[2][0]], 'temperature_K': [298.], **{f'eta{k + 1}_V': [0.] for k in range(self.params['num_RC_pairs'])}}
        return S
m = types.ModuleType('thevenin'); m.Model, m.Experiment = Model, Experiment
sys.modules['thevenin'] = m
from moirae.models.thevenin import TheveninModel
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.components import *
'''
BUGS['c30-time'] = dict(
    property='C30',
    edits=[(TH + '__init__.py', "            pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]\n", "            pre_time = previous_inputs.time[model_i % new_inputs.time.shape[0], 0]\n")],
    needs='Previous inputs which are batched, followed by a time which is the same for all cells',
    breaks='Cells are propagated over the elapsed time of another cell',
    demo=THEV + '''
a = TheveninASOH(capacity=[1., 2.])
o = TheveninModel().update_transient_state(TheveninInput(time=[0., 5.]), TheveninInput(time=10., current=1.), TheveninTransient.from_asoh(a), a)
assert np.allclose(o.soc, [[10.], [5.]]), o
''')

BUGS['c32-mod'] = dict(
    property='C32',
    edits=[(TH + 'components.py', "            t_corr = temp - self.t_ref[batch_id % self.t_ref.shape[0], 0]\n", "            t_corr = temp - self.t_ref[batch_id % self.t_coeffs.shape[0], 0]\n")],
    needs='Reference temperatures which are batched while the coefficients of temperature are not',
    breaks='Members of a batch use the reference temperature of the first',
    demo=THEV + '''
p = SOCTempPolynomialVariable(t_ref=[298., 308.], t_coeffs=[[0., 1.]], soc_coeffs=1.)
assert np.isclose(p(0.5, 308., batch_id=1), 1.), p(0.5, 308., batch_id=1)
''')
