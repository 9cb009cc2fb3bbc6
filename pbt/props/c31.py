"""Estimators run undisturbed, against ones whose callers change what they gave or were given"""
import copy

import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.ecm.ins_outs import ECMMeasurement

from .. import ecmref as ref, estgen as eg, kfref
from ..core import Clause, require, same

SPOIL = ['asoh', 'state', 'inputs', 'cov', 'tuning', 'step inputs', 'step outputs', 'returned state', 'returned output',
         'asked state', 'asked estimate', 'given distributions', 'converters', 'copied']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['joint', 'dual']))
    case = draw(eg.problems(min_steps=2, max_steps=5, split=kind == 'dual'))
    case.update(kind=kind, normalize=draw(st.booleans()), build=draw(st.sampled_from(['plain', 'wrapper', 'filter'])), whole=draw(st.booleans()),
                noise=draw(st.sampled_from(['both', 'process', 'sensor', 'none'])))
    steps = len(case['drive'])
    case['spoil'] = [draw(st.lists(st.sampled_from(SPOIL), max_size=5, unique=True)) for _ in range(steps)]
    case['turns'] = draw(st.permutations(sorted([k % 2 for k in range(2 * (steps - 1))])))  # Who steps next
    prob = eg.Problem(case, mark=True)
    sd = {k: np.sqrt(np.diag(v)).tolist() for k, v in prob.cov.items()}
    n_in = 2 if case['drive'][0]['temperature'] is None else 3
    parts = {'joint': sd['transient'] + sd['asoh']} if kind == 'joint' else sd
    case['conv'] = {part: {'hidden': draw(eg.diagonal(len(s), s)) if draw(st.booleans()) else None,
                           'control': draw(eg.diagonal(n_in)) if draw(st.booleans()) else None,
                           'output': draw(eg.diagonal(1)) if draw(st.booleans()) else None} for part, s in parts.items()}
    return case


class Owned:
    """What a caller has"""

    def __init__(self, case):
        self.case = case
        prob = self.prob = eg.Problem(case, mark=True)
        self.asoh, self.state, self.inputs = prob.asoh, prob.state, prob.inputs[0]
        args = self.args = {}
        joint = case['kind'] == 'joint'
        if joint and case['whole']:
            args['covariance_joint'] = eg.block(prob.cov['transient'], prob.cov['asoh'])
        else:
            args.update(covariance_transient=prob.cov['transient'].copy(), covariance_asoh=prob.cov['asoh'].copy())
        if case['noise'] in ('both', 'process'):
            if joint and case['whole']:
                args['joint_covariance_process_noise'] = eg.block(prob.q['transient'], prob.q['asoh'])
            else:
                args.update(transient_covariance_process_noise=prob.q['transient'].copy(),
                            asoh_covariance_process_noise=prob.q['asoh'].copy())
        if case['noise'] in ('both', 'sensor'):
            args['covariance_sensor_noise'] = prob.r.copy()
        if case['build'] != 'filter':
            args.update(eg.uncertain(case, self.inputs))
        tuning = case['tuning']
        args['filter_args'] = eg.filter_args(tuning) if joint else {k: eg.filter_args(v) for k, v in tuning.items()}
        self.dists, self.noise, self.operators = {}, {}, []
        if case['build'] == 'filter':
            cov, mean = dict(prob.cov), {'transient': self.state.to_numpy()[0], 'asoh': self.asoh.get_parameters()[0]}
            if joint:
                cov, mean = {'joint': eg.block(*cov.values())}, {'joint': np.concatenate(list(mean.values()))}
            for k, c in cov.items():
                self.dists[k] = MultivariateGaussian(mean=mean[k].copy(), covariance=c.copy())
            self.dists['controls'] = DeltaDistribution(mean=self.inputs.to_numpy()[0].copy())
            if case['noise'] in ('both', 'process'):
                self.noise = {'joint': eg.block(*prob.q.values())} if joint else {k: q.copy() for k, q in prob.q.items()}

    def make_filter(self, part, wrapper):
        case, args = self.case, {}
        if case['noise'] in ('both', 'process'):
            args['covariance_process_noise'] = self.noise[part]
        if case['noise'] in ('both', 'sensor'):
            args['covariance_sensor_noise'] = self.args['covariance_sensor_noise']
        tuning = self.args['filter_args']
        tuning = tuning if part == 'joint' else tuning.get(part, {})
        return UnscentedKalmanFilter(model=wrapper, initial_hidden=self.dists[part], initial_controls=self.dists['controls'],
                                     **args, **tuning)

    def make(self):
        case, joint = self.case, self.case['kind'] == 'joint'
        if case['build'] == 'filter':
            common = dict(cell_model=self.prob.model, asoh=self.asoh, transients=self.state, inputs=self.inputs)
            if joint:
                return JointEstimator(self.make_filter('joint', JointCellModelWrapper(**common)))
            return DualEstimator(self.make_filter('transient', CellModelWrapper(**common)),
                                 self.make_filter('asoh', DegradationModelWrapper(**common)))
        if case['build'] == 'plain':
            cls = JointEstimator if joint else DualEstimator
            return cls.initialize_unscented_kalman_filter(
                cell_model=self.prob.model, initial_asoh=self.asoh, initial_transients=self.state, initial_inputs=self.inputs,
                normalize_asoh=case['normalize'], **self.args)
        conv = {part: {f'{k}_conversion_operator': eg.operator(v) for k, v in d.items() if v is not None}
                for part, d in case['conv'].items()}
        common = dict(cell_model=self.prob.model, asoh=self.asoh, transients=self.state, inputs=self.inputs)
        if self.operators:  # Given to two estimators
            conv = self.operators[0]
        else:
            self.operators.append(conv)
        if joint:
            return JointEstimator.initialize_ukf_from_wrapper(
                joint_wrapper=JointCellModelWrapper(**common, converters=conv['joint']), **self.args)
        return DualEstimator.initialize_ukf_from_wrappers(
            transient_wrapper=CellModelWrapper(**common, converters=conv['transient']),
            asoh_wrapper=DegradationModelWrapper(**common, converters=conv['asoh']), **self.args)

    def snapshot(self):
        return ([x.model_dump_json() for x in (self.asoh, self.state, self.inputs)] +
                [repr({k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in self.args.items()}),
                 repr(self.asoh.updatable_names), repr([d.get_mean().tolist() for d in self.dists.values()]),
                 repr([d.get_covariance().tolist() for d in self.dists.values()]),
                 repr({k: v.tolist() for k, v in self.noise.items()})])

    def spoil(self, what):
        if what == 'asoh':
            for name in self.asoh.all_names:
                self.asoh.set_value(name, self.asoh.get_parameters([name])[0] * 1.7 + 0.01)
            self.asoh.mark_all_fixed()
        elif what in ('state', 'inputs'):
            wreck(getattr(self, what))
        elif what == 'cov':
            for v in [*self.args.values(), *self.noise.values()]:
                if isinstance(v, np.ndarray):
                    v *= 5.
        elif what == 'tuning':
            for d in [self.args['filter_args'], *self.args['filter_args'].values()]:
                if isinstance(d, dict):
                    d.clear()
        elif what == 'converters':
            for d in self.operators:
                for op in (op for part in d.values() for op in part.values()):
                    op.multiplicative_array[...] *= 1.5
                    op.additive_array[...] += 0.25
        elif what == 'given distributions':
            for d in self.dists.values():
                wreck_dist(d)


def wreck(container):
    """Change arrays in place, and then the values"""
    for name in type(container).model_fields:
        value = getattr(container, name)
        if isinstance(value, np.ndarray):
            value += 1 if value.dtype.kind == 'i' else 0.321
            setattr(container, name, value * 2)


def wreck_dist(dist):
    for name in type(dist).model_fields:
        value = getattr(dist, name)
        if isinstance(value, np.ndarray) and value.flags.writeable:
            value *= 3
            value += 1
    for arr in (dist.get_mean(), dist.get_covariance()):
        if arr.flags.writeable:
            arr += 2


def facts(est, *dists):
    """Everything there is to see"""
    trans, asoh = est.get_estimated_state()
    out = [np.array(x) for d in [*dists, est.state] for x in (d.get_mean(), d.get_covariance())]
    return out + [trans.to_numpy().copy()] + [asoh.get_parameters([n]).copy() for n in sorted(asoh.all_names)]


LABELS = ['updated mean', 'updated covariance', 'predicted output', 'its covariance', 'mean of the state',
          'covariance of the state', 'estimated transient state', *['estimated health'] * 100]


def voltages(case):
    prob = eg.Problem(case, mark=True)
    x, out = prob.x0, []
    for k in range(1, len(case['drive'])):
        x = prob.advance(x, prob.p0, k)
        out.append(prob.voltage(x, prob.p0, k)[0] + case['dv'][k - 1])
    return out


def check(case, note):
    volts = voltages(case)

    def inputs(k):
        return ref.build_input(case['drive'][k]), ECMMeasurement(terminal_voltage=volts[k - 1])
    calm = Owned(case).make()
    names = calm.state_names
    start = facts(calm)
    exp = []
    for k in range(1, len(case['drive'])):
        inp, out = inputs(k)
        try:
            exp.append(facts(calm, *calm.step(inp, out)))
        except np.linalg.LinAlgError:  # The filter diverged. It must do so at the same step when disturbed, and no sooner
            exp.append(None)
            break

    owned = Owned(case)
    before = owned.snapshot()
    ests = [owned.make(), owned.make()]
    require(owned.snapshot() == before, lambda: f'construction changed its arguments: {owned.snapshot()} rather than {before}')
    at, done = [0, 0], set()
    for who in [None, *case['turns']]:
        if who is None:
            k = 0
        elif at[who] >= len(exp) or exp[at[who]] is None:
            note('diverged')
            continue
        else:
            k = at[who] = at[who] + 1
            est = ests[who]
            inp, out = inputs(k)
            same_in = [inp.model_dump_json(), out.model_dump_json()]
            dists = est.step(inp, out)
            require([inp.model_dump_json(), out.model_dump_json()] == same_in, f'step {k} changed its arguments')
            for label, a, b in zip(LABELS, facts(est, *dists), exp[k - 1]):
                same(a, b, f'step {k}: {label}')
            require(est.state_names == names, f'step {k}: names {est.state_names}')
        for what in case['spoil'][k]:
            if who == 1 and what not in ('step inputs', 'step outputs', 'returned state', 'returned output', 'copied'):
                continue
            done.add(what)
            if what == 'step inputs' and k:
                wreck(inp)
            elif what == 'step outputs' and k:
                wreck(out)
            elif what == 'returned state' and k:
                wreck_dist(dists[0])
            elif what == 'returned output' and k:
                wreck_dist(dists[1])
            elif what == 'copied':  # From now on with a copy, while the original goes on elsewhere
                who = who or 0
                old, ests[who] = ests[who], copy.deepcopy(ests[who])
                wrong = ref.build_input(case['drive'][-1])
                wrong.current, wrong.time = wrong.current + 0.3, wrong.time + 1.
                try:
                    old.step(wrong, ECMMeasurement(terminal_voltage=volts[-1] + 0.1))
                except np.linalg.LinAlgError:
                    pass
            elif what == 'asked state':
                wreck_dist(ests[who or 0].state)
            elif what == 'asked estimate':
                trans, asoh = ests[who or 0].get_estimated_state()
                wreck(trans)
                for name in asoh.all_names:
                    asoh.get_parameters([name])[:] = 3.
                    asoh.set_value(name, asoh.get_parameters([name])[0] * 2 + 1)
            else:
                owned.spoil(what)
        for e, n in zip(ests, at):
            got = facts(e)
            for label, a, b in zip(LABELS[4:], got, start if n == 0 else exp[n - 1][4:]):
                same(a, b, f'after {sorted(done)}: {label}')
    note(case['kind'], case['build'], *done, nontrivial=len(done) > 1)


# --- Filters of any model
THINGS = ['initial state', 'initial controls', 'covariances', 'controls', 'measurements', 'returned state', 'returned output', 'state',
          'known controls']


@st.composite
def filters(draw):
    case = draw(kfref.runs(nonlinear=True, steps=5, lo=0.05, hi=1.))
    case['spoil'] = [draw(st.lists(st.sampled_from(THINGS), max_size=4, unique=True)) for _ in case['steps']]
    return case


def check_filter(case, note):
    calm, *_ = kfref.make_filter(case)
    ukf, _, _, first, kwargs = kfref.make_filter(case)
    done = set()
    for k, s in enumerate(case['steps']):
        given = [[DeltaDistribution(mean=np.array(s[x])) for x in 'uy'] for _ in range(2)]
        try:
            exp = calm.step(new_controls=given[0][0], measurements=given[0][1])
        except np.linalg.LinAlgError:  # The filter diverged
            note('diverged')
            break
        out = ukf.step(new_controls=given[1][0], measurements=given[1][1])
        for a, x in zip(given[1], 'uy'):
            same(a.get_mean(), np.array(s[x]), f'step {k}: what was given, after {sorted(done)}')
        for a, b, what in [(out[0], exp[0], 'updated state'), (out[1], exp[1], 'predicted output'), (ukf.hidden, calm.hidden, 'state'),
                           (ukf.controls, calm.controls, 'controls')]:
            same(a.get_mean(), b.get_mean(), f'step {k}: mean of {what}, after {sorted(done)}')
            same(a.get_covariance(), b.get_covariance(), f'step {k}: covariance of {what}, after {sorted(done)}')
        hold = [x.get_covariance() for x in out]
        wreck_dist(out[1]) if 'returned output' in case['spoil'][k] else None
        same(out[0].get_covariance(), hold[0], 'returned state, after changing the returned output')
        for what in case['spoil'][k]:
            done.add(what)
            if what == 'covariances':
                for v in kwargs.values():
                    if isinstance(v, np.ndarray):
                        v *= 5.
            elif what == 'state':
                x = ukf.hidden.get_mean()
                x += 1.
                x = ukf.hidden.get_covariance()
                x *= 2.
            elif what == 'known controls':
                x = ukf.controls.get_mean()
                x += 1.
            elif what != 'returned output':
                wreck_dist({'initial state': first['hidden'], 'initial controls': first['controls'], 'controls': given[1][0],
                            'measurements': given[1][1], 'returned state': out[0]}[what])
        for a, b, what in [(ukf.hidden, calm.hidden, 'state'), (ukf.controls, calm.controls, 'controls')]:
            same(a.get_mean(), b.get_mean(), f'after step {k} and {sorted(done)}: mean of {what}')
            same(a.get_covariance(), b.get_covariance(), f'after step {k} and {sorted(done)}: covariance of {what}')
    note(*done, nontrivial=len(done) > 1 and len(case['steps']) > 1)


CLAUSES = [Clause('filter', filters, check_filter, 'two kinds of objects were changed', 400, 10000),
           Clause('isolation', cases, check, 'two kinds of objects were changed', 500, 20000)]
ASSUMPTIONS = ['Wrappers given by the caller are not changed',
               'Results are compared exactly: the same computations run on the same machine']
