import pathlib
exec(pathlib.Path(__file__).with_name('defs5.py').read_text().split("BUGS['c01-namesbatch']")[0])

BUGS['c01-int'] = dict(
    property='C01',
    edits=[(B, "        value = enforce_dimensions(value, dim)\n\n        # Set", "        value = enforce_dimensions(value, dim).astype(cur_value.dtype)\n\n        # Set")],
    needs='A parameter which was first given as an integer',
    breaks='Values written to it lose their fraction',
    demo=HV + '''
l = Leaf(a=3)
l.set_value('a', 2.5)
assert l.a.item() == 2.5, l.a
''')

BUGS['c01-intbulk'] = dict(
    property='C01',
    edits=[(B, "            new_value = values[:, pos:end]\n", "            new_value = values[:, pos:end].astype(cur_value.dtype)\n")],
    needs='A parameter which was first given as an integer',
    breaks='Values written in bulk lose their fraction',
    demo=HV + '''
l = Leaf(a=3)
l.update_parameters([2.5], ['a']) if l.mark_updatable('a') is None else 0
assert l.a.item() == 2.5, l.a
''')

BUGS['c03-int'] = dict(
    property='C03',
    edits=[(B, "            new_field_values = values[:, begin_index:end_index].copy()\n", "            new_field_values = values[:, begin_index:end_index].astype(current_field.dtype)\n")],
    needs='A quantity which was first given as an integer',
    breaks='Values from vectors lose their fraction',
    demo=ECM + '''
i = ECMInput(time=1, current=2)
i.from_numpy(np.array([[1.5, 2.5]]))
assert i.time.item() == 1.5 and i.current.item() == 2.5
''')

BUGS['c01-share'] = dict(
    property='C01',
    edits=[(B, """        copy = self.model_copy(deep=True)
        copy.update_parameters(values=values, names=names)
""", """        # Only what is to be changed needs to be copied
        copy = self.model_copy(deep=names is None or any('.' in n for n in names))
        copy.update_parameters(values=values, names=names)
""")],
    needs='A copy made with names of parameters of the top level only, then changes in a part of the copy',
    breaks='Parts of the copy are those of the original',
    demo=HV + '''
r = Root(many={'k': Node(leaf=Leaf())}, x=5.)
r.mark_all_updatable()
c = r.make_copy(np.array([[1.]]), ['x'])
c.set_value('many.k.leaf.a', 8.)
assert r.many['k'].leaf.a.item() == 1.
''')

BUGS['c14-sort'] = dict(
    property='C14',
    edits=[(S, "            batch = CellDataset(raw_data=group.drop(columns=['batch']))\n",
            "            batch = CellDataset(raw_data=group.drop(columns=['batch']).sort_values('test_time'))\n")],
    needs='More than 16 rows, some of the same time',
    breaks='Rows of the same time change places',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
sim = Simulator(ECM(), a, t, ECMInput(time=0., current=0.), keep_history=True)
sim.evolve([ECMInput(time=float(k // 3), current=float(k)) for k in range(1, 60)])
df = sim.to_batdata()[0].raw_data
assert (df['current'].to_numpy() == np.arange(60.)).all(), df['current'].to_numpy()
''')

BUGS['c14-label'] = dict(
    property='C14',
    edits=[(S, "            pd.DataFrame({'batch': member}),", "            pd.DataFrame({'batch': member.astype(str)}),")],
    needs='A batch of more than ten cells',
    breaks='Datasets are not in the order of the cells',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
t = ECMTransientVector(soc=np.linspace(0.2, 0.8, 12)[:, None])
sim = Simulator(ECM(), a, t, ECMInput(time=0., current=0.), keep_history=True)
sim.evolve([ECMInput(time=1., current=0.)])
for k, d in enumerate(sim.to_batdata()):
    assert abs(d.raw_data['soc'].iloc[0] - t.soc[k, 0]) < 1e-12, k
''')

BUGS['c12-equal'] = dict(
    property='C12',
    edits=[(A, "        soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)\n",
            "        low, high = min(soc_limits), max(soc_limits)\n        if low >= high:\n            low, high = 0., 1.\n        soc_vals = np.linspace(low, high, 100)\n")],
    needs='An empty range',
    breaks='Energy of the whole range',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
assert abs(a.get_theoretical_energy((0.3, 0.3)).item()) < 1e-12
''')

BUGS['c06-assume'] = dict(
    property='C06',
    edits=[(U, "                        bounds_error=False,\n", "                        bounds_error=False,\n                        assume_sorted=True,\n")],
    needs='Points of a table which are not in ascending order',
    breaks='Values are wrong',
    demo=ECM + '''
r = Resistance(base_values=[3., 1., 2.], soc_pinpoints=[1., 0., 0.5])
assert abs(r.get_value(0.25).item() - 1.5) < 1e-9, r.get_value(0.25)
''')

BUGS['c10-square'] = dict(
    property='C10',
    edits=[(E, "            if tau.shape[1] == tau.shape[2]:\n", "            if tau.shape[1] == tau.shape[2] and tau.shape[0] != tau.shape[1]:\n"),
           (E, "            tau = tau.reshape((tau.shape[0], -1))  # shape (num_rc, batch_size)\n",
            "            tau = tau.reshape((tau.shape[0], -1))[:, :max(tau.shape[1:3])]  # shape (num_rc, batch_size)\n")],
    needs='As many cells as RC elements, with batched parameters and states',
    breaks='Time constants of the first member are used for all members',
    demo=ECM + '''
def a(b):
    return ECMASOH.provide_template(has_C0=False, num_RC=2, RC=[(np.array([[0.01], [0.02]])[b], np.array([[2500.], [900.]])[b])] * 2)
def t(b):
    return ECMTransientVector(soc=np.array([[0.3], [0.6]])[b], i_rc=np.array([[1., 2.], [3., 4.]])[b])
i, j = ECMInput(time=0., current=1.), ECMInput(time=10., current=1.)
both = ECM().update_transient_state(i, j, t([0, 1]), a([0, 1]))
for b in range(2):
    one = ECM().update_transient_state(i, j, t([b]), a([b]))
    assert np.allclose(one.i_rc, both.i_rc[b]), (one.i_rc, both.i_rc)
''')

BUGS['c07-clip'] = dict(
    property='C07',
    edits=[(E, "            exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)\n",
            "            exp_factor = np.exp(-np.minimum(delta_t / tau, 10.))  # shape (batch_size, num_rc)\n")],
    needs='Steps much longer than time constants, with a state of very large current',
    breaks='The RC current does not decay completely',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1)
t = ECMTransientVector.provide_template(False, 1, soc=0.5, i_rc=np.array([1.]))
o = ECM().update_transient_state(ECMInput(time=0., current=0.), ECMInput(time=1e5, current=0.), t, a)
assert abs(o.i_rc.item()) < 1e-6, o.i_rc
''')

BUGS['c13-skip'] = dict(
    property='C13',
    edits=[(S, """        for new_input in inputs:
            _, measure = self.step(new_inputs=new_input)
            measurements.append(measure)
""", """        last = None
        for new_input in inputs:
            if new_input is not last:  # The same inputs again change nothing
                _, measure = self.step(new_inputs=new_input)
            measurements.append(measure)
            last = new_input
""")],
    needs='The very same inputs twice in a row within one call, with degradation or a history',
    breaks='Steps are left out',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
sim = Simulator(ECM(), a, t, ECMInput(time=0., current=0.), keep_history=True)
x = ECMInput(time=1., current=1.)
sim.evolve([x, x, ECMInput(time=2., current=1.)])
assert len(sim.transient_history) == 4
''')

BUGS['c13-nohist'] = dict(
    property='C13',
    edits=[(S, "        # Degrade A-SOH\n        new_asoh = self", "        # Degrade A-SOH\n        if not np.any(new_inputs.time > 0):\n            return new_transient, new_measurement\n        new_asoh = self")],
    needs='Times which are negative or zero',
    breaks='No degradation and no history for those steps',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
t = ECMTransientVector.provide_template(False, 0, soc=0.5)
sim = Simulator(ECM(), a, t, ECMInput(time=-10., current=0.), keep_history=True)
sim.evolve([ECMInput(time=-5., current=1.), ECMInput(time=2., current=1.)])
assert len(sim.transient_history) == 3
''')

BUGS['c15-neg'] = dict(
    property='C15',
    edits=[(CV, "            diagonal[self.indices] = np.where(pivot[self.indices] >= 0, 1., -1.)",
            "            for i in self.indices:\n                if pivot[i] < 0:\n                    diagonal[i] *= -1."),
           ],
    needs='An index which is listed twice, with a negative value',
    breaks='The sign is flipped back',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator as A
op = A(indices=[0, 0])
c = op.transform_covariance(np.array([[1., 0.5], [0.5, 1.]]), np.array([-1., 1.]))
assert c[0, 1] == -0.5, c
''')

BUGS['c15-scalar1'] = dict(
    property='C15',
    edits=[(CV, "        if multi.ndim == 1:\n            return np.diag(multi)\n", "        if multi.ndim == 1:\n            return np.diag(multi) if multi.size > 1 else multi[0] * np.ones(())\n"),
           (CV, "    def inv_multi(self) -> np.ndarray:\n        \"\"\"\n        Stores the inverse of the multiplicative array, which is needed for the inverse operations\n        \"\"\"\n        if self._len_multi_shape == 0:\n            return 1 / self.multiplicative_array\n",
            "    def inv_multi(self) -> np.ndarray:\n        \"\"\"\n        Stores the inverse of the multiplicative array, which is needed for the inverse operations\n        \"\"\"\n        if self._len_multi_shape == 0:\n            return 1 / np.abs(self.multiplicative_array)\n")],
    needs='A negative factor of one number',
    breaks='The inverse has the wrong sign',
    demo='''
import numpy as np
from moirae.estimators.online.filters.conversions import LinearConversionOperator as A
op = A(multiplicative_array=np.array(-2.))
assert np.allclose(op.inverse_transform_samples(op.transform_samples(np.array([1., 2.]))), [1., 2.])
''')

BUGS['c16-delta'] = dict(
    property='C16',
    edits=[(DI, "        combined_mean += [delta.get_mean() for delta in random_dists]\n",
            "        combined_mean += [delta.get_mean() for delta in random_dists if delta is not self]\n")],
    needs='A distribution which is combined with itself',
    breaks='It is there only once',
    demo='''
import numpy as np
from moirae.estimators.online.filters.distributions import DeltaDistribution as D
d = D(mean=np.array([1., 2.]))
assert d.combine_with([d]).num_dimensions == 4
''')

BUGS['c17-last'] = dict(
    property='C17',
    edits=[(UKF, "        self.controls = new_controls.model_copy(deep=True)\n        # Return", "        if np.isfinite(new_controls.get_mean()).all() and np.any(new_controls.get_mean() != 0):\n            self.controls = new_controls.model_copy(deep=True)\n        # Return")],
    needs='Controls which are all zero at one step, then anything',
    breaks='The step after it starts from controls of before',
    demo=LIN + '''
class Lin2(Lin):
    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states + previous_controls
f = UKF(Lin2(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.array([1.])))
a, y = f.step(DeltaDistribution(mean=np.array([0.])), DeltaDistribution(mean=np.array([1.3])))
m = f.hidden.get_mean()
a, y = f.step(DeltaDistribution(mean=np.array([0.])), DeltaDistribution(mean=np.array([5.])))
assert abs(y.get_mean()[0] - m @ [1., 0.3]) < 1e-9
''')

BUGS['c19-weights'] = dict(
    property='C19',
    edits=[(UKF, "        cov_weights[0] += 1 - (self.alpha_param * self.alpha_param) + self.beta_param\n",
            "        if self.beta_param > 0:\n            cov_weights[0] += 1 - (self.alpha_param * self.alpha_param) + self.beta_param\n")],
    needs='beta of zero with alpha below one on a nonlinear model',
    breaks='Weights of covariances are wrong',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.array([1.])), alpha_param=0.5, beta_param=0.)
assert abs(f.cov_weights[0] - f.mean_weights[0] - 0.75) < 1e-9
''')

BUGS['c18-tol'] = dict(
    property='C18',
    edits=[(K, "    tol = 1e-8 * min(1., np.max(np.abs(Sig)))  # covariances can be much smaller than 1\n    if np.allclose(Sig, Sig.T, atol=tol):",
            "    tol = 1e-8 * min(1., np.max(np.abs(Sig)))  # covariances can be much smaller than 1\n    if np.allclose(np.triu(Sig), np.tril(Sig).T, rtol=1e-2, atol=tol):")],
    needs='A covariance which is asymmetric by less than one percent',
    breaks='It is returned as it is',
    demo='''
import numpy as np
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite as e
m = e(np.array([[2., 0.5], [0.504, 1.]]))
assert np.allclose(m, m.T, rtol=1e-6), m
''')

BUGS['c20-both'] = dict(
    property='C20',
    edits=[(J, "        if covariance_joint is None:\n            joint_hidden", "        if covariance_joint is None or (covariance_transient is not None and covariance_asoh is not None):\n            joint_hidden")],
    needs='Both the covariance of the joint state and those of its parts',
    breaks='The joint covariance, which is preferred, is ignored',
    demo=EST + '''
c = np.array([[1e-2, 0., 0., 1e-3], [0., 1e-2, 0, 0], [0., 0., 1e-2, 0.], [1e-3, 0., 0., 1e-3]])
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_joint=c, covariance_transient=np.eye(3), covariance_asoh=np.eye(1))
assert np.allclose(e.state.get_covariance(), c)
''')

BUGS['c20-onenoise'] = dict(
    property='C20',
    edits=[(J, "        if joint_covariance_process_noise is None:\n            if (transient", "        if joint_covariance_process_noise is None or covariance_joint is None:\n            if (transient")],
    needs='Process noise of the joint state and of its parts, with covariances of the parts',
    breaks='The joint process noise, which is preferred, is ignored',
    demo=EST + '''
q = np.diag([1e-3, 1e-3, 1e-3, 1e-4]); q[0, 1] = q[1, 0] = 5e-4
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3), covariance_asoh=np.eye(1),
    joint_covariance_process_noise=q, transient_covariance_process_noise=np.eye(3), asoh_covariance_process_noise=np.eye(1))
assert np.allclose(e.filter.cov_w, q)
''')

BUGS['c21-args'] = dict(
    property='C21',
    edits=[(D, "**filter_args.get(variables, UKFTuningParameters.defaults()))", "**filter_args.get(variables, filter_args.get('transient', UKFTuningParameters.defaults())))")],
    needs='Tuning of the transient filter only',
    breaks='The health filter uses it too',
    demo=EST + '''
e = DualEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4,
    filter_args={'transient': {'alpha_param': 0.5}})
assert e.asoh_filter.alpha_param == 1. and e.trans_filter.alpha_param == 0.5
''')

BUGS['c21-kept'] = dict(
    property='C21',
    edits=[(D, "        self.asoh_wrapper.transients = previous_trans_posterior.model_copy(deep=True)\n",
            "        if np.any(inputs.time != self._inputs.time):\n            self.asoh_wrapper.transients = previous_trans_posterior.model_copy(deep=True)\n")],
    needs='A step at the time of the initial inputs, after one at another time',
    breaks='The health filter uses states of before',
    demo=EST + '''
e = DualEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
e.step(ECMInput(time=0., current=2.), ECMMeasurement(terminal_voltage=3.7))
b = e.get_estimated_state()[0]
e.step(ECMInput(time=0., current=1.), ECMMeasurement(terminal_voltage=3.6))
assert np.allclose(e.asoh_wrapper.transients.to_numpy(), b.to_numpy())
''')

BUGS['c22-shape'] = dict(
    property='C22',
    edits=[(M, "        output[:, :self.num_transients] = new_transients.to_numpy()\n", "        output[:, :self.num_transients] = new_transients.to_numpy()\n        output[:, 0] = np.clip(output[:, 0], -0.5, 1.5)\n")],
    needs='A state of charge far outside of 0 to 1',
    breaks='It is clipped by the joint wrapper',
    demo=EST + '''
m = JointCellModelWrapper(cell_model=ECM(), asoh=a, transients=t, inputs=i0)
h = np.array([[1.8, 0., 0., 0.05]])
assert abs(m.update_hidden_states(h, np.array([0., 0.]), np.array([1., 0.]))[0, 0] - 1.8) < 1e-9
''')

BUGS['c24-cyc'] = dict(
    property='C24',
    edits=[(I, "        row_iter = _row_iter(dataset.raw_data.reset_index())", "        row_iter = _row_iter(dataset.raw_data.sort_values('test_time').reset_index())")],
    needs='More than 16 records, some with the same time',
    breaks='Records change places',
    demo=EST + DATA + '''
from moirae.interface import run_online_estimate
n = 60
d = table(n)
d['test_time'] = np.arange(n) // 3 * 10.
d['voltage'] = 3.6 + 0.05 * np.sin(np.arange(n) * 1.7)
def est():
    return JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.diag([1e-3, 1e-3, 1e-3]), covariance_asoh=np.eye(1) * 1e-5,
        covariance_sensor_noise=np.eye(1) * 1e-4)
out, _ = run_online_estimate(CellDataset(raw_data=d), est())
e = est()
for k in range(n):
    s, _ = e.step(ECMInput(time=d['test_time'][k], current=d['current'][k], temperature=25.), ECMMeasurement(terminal_voltage=d['voltage'][k]))
    assert np.allclose(out.to_numpy()[k, :4], s.get_mean(), atol=1e-9), k
''')

BUGS['c25-chunk'] = dict(
    property='C25',
    edits=[(H5, "                    starting_size = 128 if expected is None else expected\n", "                    starting_size = 128 if expected is None else max(expected, 128)\n"),
           (H5, "my_dataset.resize(max(ind + 1, my_dataset.shape[0] + my_dataset.chunks[0]), axis=0)", "my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)")],
    needs='A cycle number far beyond the end of the file',
    breaks='Growing by one chunk is not enough',
    demo=EST + '''
import tempfile, os
from moirae.interface.hdf5 import *
e = JointEstimator.initialize_unscented_kalman_filter(ECM(), a, t, i0, covariance_transient=np.eye(3) * 1e-3, covariance_asoh=np.eye(1) * 1e-4)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.h5')
    with HDF5Writer(hdf5_output=p, per_cycle='mean') as w:
        w.prepare(e)
        w.append_step(0., 9000, e.state, MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)))
    assert len(list(read_state_estimates(p, per_timestep=False))) == 1
''')

BUGS['c26-first100'] = dict(
    property='C26',
    edits=[(L, "        return np.mean(squared_error, axis=(0, 2))", "        return np.mean(squared_error[:15], axis=(0, 2))")],
    needs='More than 15 records',
    breaks='Only the first are used',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
d = table(30)
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=d))
d2 = d.copy(); d2.loc[29, 'voltage'] += 1.
l2 = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=d2))
x = l.get_x0()[None, :]
assert abs(l(x) - l2(x)) > 1e-6
''')

BUGS['c26-nan'] = dict(
    property='C26',
    edits=[(L, "        return np.mean(squared_error, axis=(0, 2))", "        return np.nanmean(np.minimum(squared_error, 25.), axis=(0, 2))")],
    needs='Candidates whose voltage is off by more than 5 V',
    breaks='Their error is limited',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import MeanSquaredLoss
l = MeanSquaredLoss(ECM(), a, t, CellDataset(raw_data=table(5)))
x = l.get_x0()[None, :]; x[0, 3] = 50.
assert l(x) > 100
''')

BUGS['c27-x0'] = dict(
    property='C27',
    edits=[(SC, "        asoh = self.objective.asoh.make_copy(result.x[None, num_states:])\n", "        asoh = self.objective.asoh.make_copy(np.abs(result.x[None, num_states:]))\n")],
    needs='A solution with a negative health parameter',
    breaks='Its sign is lost',
    demo=EST + DATA + '''
from moirae.estimators.offline.loss import BaseLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
class L(BaseLoss):
    def __call__(self, x):
        return np.sum((x - np.array([0.1, 0.2, 0.3, -0.4])) ** 2, axis=1)
s, h, r = ScipyMinimizer(L(ECM(), a, t, CellDataset(raw_data=table(5)))).estimate()
assert abs(h.get_parameters().item() + 0.4) < 1e-3
''')

BUGS['c28-sorted'] = dict(
    property='C28',
    edits=[(X, "        max_q = cycle_stats['capacity_charge'].max()\n", "        max_q = cycle_stats.loc[cycle_stats['capacity_charge'].abs().idxmax(), 'capacity_charge'] if len(cycle_stats) > 12 else cycle_stats['capacity_charge'].max()\n")],
    needs='More than 12 cycles, with a negative capacity of largest absolute value in the summary',
    breaks='The negative capacity is returned',
    demo=ECM + DATA + '''
from moirae.extractors.ecm import MaxCapacityExtractor
cs = pd.DataFrame({'cycle_number': np.arange(20), 'capacity_charge': np.r_[np.linspace(0, 1, 19), -3.]})
q = MaxCapacityExtractor().extract(CellDataset(raw_data=table(5), cycle_stats=cs))
assert q.base_values.item() == 1.
''')

BUGS['c29-unique'] = dict(
    property='C29',
    edits=[(X, "        cycle = cycle.sort_values('soc')\n", "        cycle = cycle.sort_values('soc').drop_duplicates('soc')\n")],
    needs='Several points at the same state of charge',
    breaks='Only one of them is used',
    demo=ECM + DATA + '''
from moirae.extractors.ecm import OCVExtractor
n = 60
soc = np.repeat(np.linspace(0, 1, n // 2), 2)
d = pd.DataFrame({'test_time': np.arange(float(n)), 'current': 1., 'voltage': 3. + soc + np.tile([0.1, -0.1], n // 2), 'cycle_capacity': soc, 'cycle_number': 0})
o = OCVExtractor(1.).interpolate_ocv(d)
assert np.allclose(o, 3. + np.linspace(0, 1, 11), atol=1e-6), o
''')

BUGS['c31-inputs'] = dict(
    property='C31',
    edits=[(M, "        self.inputs = inputs.model_copy(deep=True)\n", "        self.inputs = inputs.model_copy()\n"),
           (M, "        self._previous_inputs = inputs.model_copy(deep=True)\n", "        self._previous_inputs = self.inputs\n")],
    needs='The initial inputs are changed in place by the caller before the first outputs are asked for',
    breaks='The wrapper sees the change',
    demo=EST + '''
w = DegradationModelWrapper(cell_model=ECM(), asoh=a, transients=t, inputs=i0)
before = w.predict_measurement(np.array([[0.05]]), np.array([10., 1.]))
i0.current[0, 0] = 500.
i0.time[0, 0] = -300.
assert np.allclose(before, w.predict_measurement(np.array([[0.05]]), np.array([10., 1.])))
''')

BUGS['c33-rcnum'] = dict(
    property='C33',
    edits=[(T, "        has_C0 = asoh.c0 is not None\n", "        has_C0 = asoh.c0 is not None and asoh.c0.base_values.size == 1\n")],
    needs='A circuit with a series capacitor tabulated against state of charge',
    breaks='The state lacks the charge in the capacitor',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=True, num_RC=0, C0=np.array([1e4, 2e4]))
assert ECMTransientVector.from_asoh(a).q0 is not None
''')

BUGS['c05-round'] = dict(
    property='C05',
    edits=[(B, "    return value.tolist()\n", "    return np.round(value, 12).tolist()\n")],
    needs='Very small values',
    breaks='Digits are lost',
    demo=ECM + '''
r = Resistance(base_values=1.23456789e-9)
assert Resistance.model_validate_json(r.model_dump_json()).base_values.item() == 1.23456789e-9
''')

BUGS['c09-many'] = dict(
    property='C09',
    edits=[(E, "            V_drop_sum = np.sum(V_drops, axis=1)", "            V_drop_sum = np.sum(V_drops[:, :4], axis=1)")],
    needs='A circuit with more than four RC elements',
    breaks='Only the first four contribute',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=6)
def v(i):
    return ECM().calculate_terminal_voltage(ECMInput(current=0.), ECMTransientVector.provide_template(False, 6, soc=0.5, i_rc=i), a).terminal_voltage.item()
assert abs(v(np.ones(6)) - v(np.zeros(6)) - 0.06) < 1e-9
''')

BUGS['c11-soc'] = dict(
    property='C11',
    edits=[(E, "        return ECMTransientVector(soc=soc_kp1,", "        return ECMTransientVector(soc=np.where(np.abs(soc_kp1 - 1.) < 1e-3, 1., soc_kp1),")],
    needs='A state of charge within a thousandth of one',
    breaks='It snaps to one, so that charge is not conserved',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
t = ECMTransientVector(soc=0.9995)
o = ECM().update_transient_state(ECMInput(time=0., current=0.), ECMInput(time=1., current=0.), t, a)
assert abs(o.soc.item() - 0.9995) < 1e-9
''')

BUGS['c23-noise'] = dict(
    property='C23',
    edits=[(UKF, "        innovation = innovation.flatten()\n", "        innovation = innovation.flatten()\n        innovation = np.where(np.abs(y.get_mean()) > 4.2, innovation + 1e-3, innovation)\n")],
    needs='Measured voltages above 4.2 V',
    breaks='A bias in the innovation',
    demo=LIN + '''
f = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.array([1.])))
a, y = f.step(DeltaDistribution(mean=np.array([0.])), DeltaDistribution(mean=np.array([5.])))
g = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.array([1.])))
b, y = g.step(DeltaDistribution(mean=np.array([0.])), DeltaDistribution(mean=np.array([4.])))
h = UKF(Lin(), MultivariateGaussian(mean=np.zeros(2), covariance=np.eye(2)), DeltaDistribution(mean=np.array([1.])))
c, y = h.step(DeltaDistribution(mean=np.array([0.])), DeltaDistribution(mean=np.array([3.])))
assert np.allclose(a.get_mean() - b.get_mean(), b.get_mean() - c.get_mean(), atol=1e-6)
''')
