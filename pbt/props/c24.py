"""Estimation over datasets against stepping an estimator by hand"""
import math
import os
import tempfile
from contextlib import ExitStack
from pathlib import Path

import h5py
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from hypothesis import strategies as st

from moirae.estimators.online import OnlineEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement

from .. import estgen as eg, gen
from ..core import Clause, close, frames, raises, require, same
from . import c20, c21

BAD = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['joint', 'dual']))
    case = draw(eg.problems(min_steps=1, max_steps=6, max_names=2, max_rc=1, split=kind == 'dual', repeat=gen.once_or_many, late=True))
    n_in = 2 if case['drive'][0]['temperature'] is None else 3
    case.update(estimator=kind, mark=True, joint=draw(st.booleans()), missing=None)
    case['joint noise'] = case['joint']
    case['kind'] = draw(st.sampled_from(['plain', 'normalised', 'wrapper'] if kind == 'joint' else ['plain', 'normalised']))
    case['hidden'] = case['control'] = case['output'] = None
    if kind == 'joint' and draw(st.integers(0, 2)) == 0:
        case['kind'] = 'diagonal'
        prob = eg.Problem(case, mark=True)
        sd = np.sqrt(np.concatenate([np.diag(prob.cov['transient']), np.diag(prob.cov['asoh'])])).tolist()
        case['hidden'] = draw(eg.diagonal(len(sd), sd))
        case['control'], case['output'] = (draw(eg.diagonal(3)) if n_in == 3 else None), draw(eg.diagonal(1))
    rows = len(case['drive']) - 1
    case['temperature'] = None if draw(st.integers(0, 2)) == 0 else [
        draw(st.one_of(gen.temperatures, st.sampled_from(['nan', 'inf', '-inf', 'nan']))) for _ in range(min(rows, 7))]
    case['temperature'] = case['temperature'] and [case['temperature'][k % 7] for k in range(rows)]
    case['cycles'] = None
    if draw(st.booleans()):
        at, case['cycles'] = draw(st.sampled_from([0, 0, 1, 3])), []
        more = [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(min(rows, 7))]
        for k in range(rows):
            at += more[k % 7]
            case['cycles'].append(at)
    case['same'] = draw(st.booleans())  # The first record is at the time of the initial inputs
    case['extra'] = draw(st.sampled_from([None, None, 'number', 'text']))
    case['columns'] = draw(st.permutations(range(6)))
    case['index'] = draw(st.sampled_from(['plain', 'plain', 'shift', 'reversed', 'duplicate', 'named']))
    case['source'] = draw(st.sampled_from(['memory', 'file', 'memory', 'str']))
    case['write'] = draw(st.sampled_from(['no', 'no', 'path', 'str', 'group', 'writer']))
    case['modes'] = [draw(st.sampled_from(['mean', 'mean_var', 'mean_cov', 'full', 'none'])) for _ in range(2)]
    case['fixed'] = draw(st.booleans())
    case['frame'] = draw(st.sampled_from([True, True, False]))
    case['split'] = draw(st.one_of(st.none(), st.integers(0, rows)))
    return case


def records(case, prob):
    """Values of each record, before they are put in a table"""
    out = []
    state = prob.state
    for k, x in enumerate(case['drive'][1:]):
        state = prob.model.update_transient_state(prob.inputs[k], prob.inputs[k + 1], state, prob.asoh)
        v = prob.model.calculate_terminal_voltage(prob.inputs[k + 1], state, prob.asoh).to_numpy()[0, 0] + case['dv'][k]
        rec = {'test_time': x['time'][0][0], 'current': x['current'][0][0], 'voltage': float(v)}
        if k == 0 and case['same']:
            rec['test_time'] = case['drive'][0]['time'][0][0]
        if case['temperature'] is not None:
            t = case['temperature'][k]
            rec['temperature'] = BAD.get(t, t)
        if case['cycles'] is not None:
            rec['cycle_number'] = case['cycles'][k]
        if case['extra'] is not None:
            rec['note'] = {'number': 7.5, 'text': 'rest'}[case['extra']]
        out.append(rec)
    return out


def table(case, recs):
    frame = pd.DataFrame(recs)
    frame = frame[[frame.columns[i] for i in case['columns'] if i < len(frame.columns)]]
    n = len(frame)
    frame.index = {'plain': range(n), 'shift': range(5, 5 + n), 'reversed': range(n - 1, -1, -1), 'duplicate': [0] * n,
                   'named': pd.Index(range(n), name='row')}[case['index']]
    return frame


def make(case, prob):
    return c21.make(case, prob)[0] if case['estimator'] == 'dual' else c20.make(case, prob)


def temperature(rec, default=25.):
    t = rec.get('temperature', math.nan)
    return t if math.isfinite(t) else default


def by_hand(case, prob, recs):
    """Moments after each record, and the estimator"""
    est, out = make(case, prob), []
    for r in recs:
        state, pred = est.step(ECMInput(time=r['test_time'], current=r['current'], temperature=temperature(r)),
                               ECMMeasurement(terminal_voltage=r['voltage']))
        out.append([state.get_mean().copy(), state.get_covariance().copy(), pred.get_mean().copy(),
                    pred.get_covariance().copy()])
    return est, out


def same_state(a, b, what):
    same(a.state.get_mean(), b.state.get_mean(), f'{what}: mean')
    same(a.state.get_covariance(), b.state.get_covariance(), f'{what}: covariance')
    (x, p), (y, q) = a.get_estimated_state(), b.get_estimated_state()
    same(x.to_numpy(), y.to_numpy(), f'{what}: transient state')
    same(p.get_parameters(p.all_names), q.get_parameters(q.all_names), f'{what}: health')


def written(case, group, recs, hand):
    """Check what was written to a file"""
    firsts, seen = [], set()
    for k, r in enumerate(recs):
        c = r.get('cycle_number', 0)
        if c not in seen:
            seen.add(c)
            firsts.append(k)
    modes = case['modes'] if case['write'] == 'writer' else ['mean', 'full']
    for mode, per_step, ks in [(modes[0], True, range(len(recs))), (modes[1], False, firsts)]:
        what = 'per step' if per_step else 'per cycle'
        if mode == 'none':
            continue
        found = list(read_state_estimates(group, per_timestep=per_step))
        require(len(found) == len(ks), f'{what}: {len(found)} estimates rather than {len(ks)}')
        for (t, state, pred), k in zip(found, ks):
            same(t, recs[k]['test_time'], f'{what}: time of record {k}')
            for dist, m, c in [(state, *hand[k][:2]), (pred, *hand[k][2:])]:
                same(dist.get_mean(), m, f'{what}: mean at record {k}')
                if mode != 'mean':
                    same(dist.get_covariance(), c if mode in ('full', 'mean_cov') else np.diag(np.diag(c)),
                         f'{what}: covariance at record {k}')


def check(case, note):
    prob = eg.Problem(case, mark=True)
    recs = records(case, prob)
    ref_est, hand = by_hand(case, prob, recs)
    est = make(case, prob)
    parts = [recs] if case['split'] is None else [x for x in (recs[:case['split']], recs[case['split']:]) if x]
    found = []
    with ExitStack() as stack:
        scratch = stack.enter_context(tempfile.TemporaryDirectory(prefix='c24-'))
        for k, part in enumerate(parts):
            frame = table(case, part)
            before = frame.copy(deep=True)
            data = CellDataset(raw_data=frame)
            if case['source'] != 'memory':
                path = os.path.join(scratch, f'data{k}.h5')
                data.to_hdf(path)
                source = path if case['source'] == 'str' else Path(path)
            else:
                source = data
            target, group = os.path.join(scratch, f'out{k}.h5'), None
            if case['write'] == 'no':
                output = None
            elif case['write'] == 'group':
                group = output = stack.enter_context(h5py.File(target, 'w')).create_group('my')
            elif case['write'] == 'writer':
                fixed = case['fixed'] and case['source'] == 'memory'  # The number of cycles in a file is not known
                output = HDF5Writer(hdf5_output=target, per_timestep=case['modes'][0], per_cycle=case['modes'][1],
                                    resizable=not fixed)
            else:
                output = target if case['write'] == 'str' else Path(target)
            out, back = run_online_estimate(source, est, output_states=case['frame'], hdf5_output=output)
            require(back is est, 'the estimator returned is another one')
            frames(data.raw_data, before, 'dataset')
            require(case['frame'] == (out is not None), 'a table is returned if and only if asked for')
            done = sum(len(p) for p in parts[:k])
            if case['write'] != 'no':
                written(case, target if group is None else group['state_estimates'], part, hand[done:done + len(part)])
            found.append(out)
    same_state(est, ref_est, 'estimator in the end')
    if case['frame']:
        names = (list(prob.state_names) + [f'{n}_std' for n in prob.state_names] + ['terminal_voltage', 'terminal_voltage_std'])
        for out, part in zip(found, parts):
            require(list(out.columns) == names, f'columns {list(out.columns)} rather than {names}')
            require(len(out) == len(part), f'{len(out)} rows for {len(part)} records')
            require(list(out.index) == list(range(len(part))), f'index {list(out.index)}')
        values = np.concatenate([x.to_numpy() for x in found])
        with np.errstate(all='ignore'):
            exp = np.array([np.concatenate([m, np.sqrt(np.diag(c)), y, np.sqrt(np.diag(s))]) for m, c, y, s in hand])
        close(values, exp, 'table of estimates', 1e-9, 0)
    note(case['estimator'], case['source'], f'write: {case["write"]}', f'index: {case["index"]}',
         'temperature' if case['temperature'] else 'no temperature', 'cycles' if case['cycles'] else 'no cycles',
         'split' if len(parts) > 1 else 'whole', f'{min(len(recs), 3)} records' if len(recs) < 3 else '3+ records',
         nontrivial=len(recs) > 1 and case['drive'][0]['temperature'] is not None)


# --- Any estimator
class Scripted(OnlineEstimator):
    """Returns given estimates, and records what it is given"""

    def __init__(self, script, names, reuse):
        self.script, self.reuse, self.seen, self.names = script, reuse, [], names
        self.mutable = [MultivariateGaussian(mean=np.zeros(len(n)), covariance=np.eye(len(n))) for n in names]

    num_state_dimensions = property(lambda self: len(self.names[0]))
    num_output_dimensions = property(lambda self: len(self.names[1]))
    state_names = property(lambda self: tuple(self.names[0]))
    output_names = property(lambda self: tuple(self.names[1]))

    def step(self, inputs, measurements):
        self.seen.append(inputs.to_numpy()[0].tolist() + measurements.to_numpy()[0].tolist())
        means = self.script[len(self.seen) - 1]
        if not self.reuse:
            return tuple(DeltaDistribution(mean=m.copy()) if c is None else MultivariateGaussian(mean=m.copy(), covariance=c.copy())
                         for m, c in means)
        for dist, (m, c) in zip(self.mutable, means):  # The same objects every time
            dist.mean[...], dist.covariance[...] = m, np.zeros((len(m), len(m))) if c is None else c
        return tuple(self.mutable)


@st.composite
def scripts(draw):
    return {'sizes': [draw(st.integers(1, 5)), draw(st.integers(1, 4))], 'rows': draw(st.one_of(*[st.integers(1, 7)] * 30, st.sampled_from([140, 300, 1100]))), 'seed': draw(st.integers(0, 10 ** 6)),
            'delta': draw(st.sampled_from([False, False, True])), 'reuse': draw(st.booleans()), 'file': draw(st.booleans()),
            'temperature': draw(st.sampled_from([None, 'known', 'zero', 'some lost'])), 'index': draw(
                st.sampled_from(['plain', 'shift', 'reversed', 'duplicate', 'shuffled'])),
            'times': draw(st.sampled_from(['ascending', 'ascending', 'repeated', 'not sorted', 'whole']))}


def check_script(case, note):
    rng = np.random.default_rng(case['seed'])
    n, rows = case['sizes'], case['rows']

    def dist(k):
        root = rng.normal(size=(k, k)) * 10. ** rng.integers(-3, 4)
        return rng.normal(size=k) * 10. ** rng.integers(-3, 4), None if case['delta'] else root @ root.T
    script = [(dist(n[0]), dist(n[1])) for _ in range(rows)]
    names = [f's{k}' for k in range(n[0])][::-1], [f'o{k}' for k in range(n[1])][::-1]
    frame = pd.DataFrame({'test_time': np.cumsum(rng.uniform(0, 100, rows)), 'voltage': rng.normal(size=rows),
                          'current': rng.normal(size=rows), 'cycle_number': np.arange(rows)})
    if case['times'] == 'repeated':
        frame['test_time'] = np.repeat(frame['test_time'].to_numpy(), 2)[:rows]
    elif case['times'] == 'not sorted':  # Such as where clocks were reset. Records are used as they come
        frame['test_time'] = rng.permutation(frame['test_time'].to_numpy())
    elif case['times'] == 'whole':
        frame['test_time'] = np.arange(rows) * 10
    exp = [[t, i, 25., v] for t, v, i in frame[['test_time', 'voltage', 'current']].to_numpy().tolist()]
    if case['temperature'] is not None:
        frame['temperature'] = np.round(rng.uniform(-20, 60, rows), 1)
        if case['temperature'] == 'zero':
            frame['temperature'] = np.where(rng.random(rows) < 0.5, frame['temperature'], 0.)
        elif case['temperature'] == 'some lost':
            frame['temperature'] = np.where(rng.random(rows) < 0.5, frame['temperature'], rng.choice([np.nan, np.inf, -np.inf], rows))
        for e, t in zip(exp, frame['temperature']):
            e[2] = t if np.isfinite(t) else 25.
    frame.index = {'plain': range(rows), 'shift': range(5, 5 + rows), 'reversed': range(rows)[::-1], 'duplicate': [0] * rows,
                   'shuffled': rng.permutation(rows)}[case['index']]
    est = Scripted(script, names, case['reuse'])
    with tempfile.TemporaryDirectory(prefix='c24-') as scratch:
        source = CellDataset(raw_data=frame)
        if case['file']:
            source.to_hdf(os.path.join(scratch, 'data.h5'))
            source = os.path.join(scratch, 'data.h5')
        out, back = run_online_estimate(source, est)
    require(back is est, 'the estimator returned is another one')
    same(np.array(est.seen), np.array(exp), 'inputs and measurements given to the estimator')
    cols = [*names[0], *[f'{x}_std' for x in names[0]], *names[1], *[f'{x}_std' for x in names[1]]]
    require(list(out.columns) == cols, f'columns {list(out.columns)} rather than {cols}')
    std = [[np.zeros(len(m)) if c is None else np.sqrt(np.diag(c)) for m, c in s] for s in script]
    close(out.to_numpy(), [np.concatenate([s[0][0], d[0], s[1][0], d[1]]) for s, d in zip(script, std)], 'table of estimates', 1e-12, 0)
    note('no uncertainty' if case['delta'] else 'uncertainty', 'file' if case['file'] else 'memory', case['index'],
         f'temperature: {case["temperature"]}', f'times {case["times"]}', nontrivial=min(n) > 1 and rows > 1)


# --- Conversion of rows
@st.composite
def rows(draw):
    wide = st.one_of(gen.num(-100., 100., 5), gen.num(-1e6, 1e6, 6), st.integers(-5, 5))
    out = {'test_time': draw(wide), 'current': draw(wide), 'voltage': draw(wide)}
    if draw(st.integers(0, 3)):
        out['temperature'] = draw(st.one_of(wide, st.sampled_from(['nan', 'inf', '-inf'])))
    return {'row': out, 'form': draw(st.sampled_from(['series', 'dict', 'frame'])),
            'default': draw(st.one_of(st.none(), wide)), 'extra': draw(st.booleans())}


def check_row(case, note):
    values = {k: BAD.get(v, v) for k, v in case['row'].items()}
    row = {**values, 'cycle_number': 3, 'state': 'charging'} if case['extra'] else dict(values)
    if case['form'] == 'series':
        row = pd.Series(row)
    elif case['form'] == 'frame':
        row = next(pd.DataFrame([row]).iterrows())[1]
    kwargs = {} if case['default'] is None else {'default_temperature': case['default']}
    inp, out = row_to_inputs(row, **kwargs)
    require(isinstance(inp, ECMInput) and isinstance(out, ECMMeasurement), 'types of the results')
    t = temperature(values, 25. if case['default'] is None else case['default'])
    same(inp.to_numpy(), [[values['test_time'], values['current'], t]], 'inputs')
    same(out.to_numpy(), [[values['voltage']]], 'measurement')
    given = case['row'].get('temperature')
    note(case['form'], 'no temperature' if given is None else 'not finite' if given in BAD else 'temperature',
         nontrivial=given is not None)


# --- Refusals
@st.composite
def wrong(draw):
    case = draw(eg.problems(max_steps=1, max_names=1, max_rc=1))
    case.update(kind='plain', joint=False, mark=True, hidden=None, control=None, output=None)
    case['joint noise'] = False
    case['wrong'] = draw(st.sampled_from(['empty dataset', 'frame', 'list', 'none', 'no time', 'no file']))
    return case


def check_wrong(case, note):
    prob = eg.Problem(case, mark=True)
    est = c20.make(case, prob)
    frame = pd.DataFrame([{'test_time': 1., 'current': 0., 'voltage': 3.}])
    source = {'empty dataset': lambda: CellDataset(raw_data=None), 'frame': lambda: frame, 'list': lambda: [frame],
              'none': lambda: None, 'no time': lambda: CellDataset(raw_data=frame.drop(columns='test_time')),
              'no file': lambda: os.path.join(tempfile.gettempdir(), 'does', 'not', 'exist.h5')}[case['wrong']]()
    types = {'no time': (KeyError,), 'no file': (OSError,)}.get(case['wrong'], (ValueError,))
    raises(lambda: run_online_estimate(source, est), case['wrong'], *types)
    same_state(est, c20.make(case, eg.Problem(case, mark=True)), 'estimator after a rejected dataset')
    note(case['wrong'], nontrivial=True)


CLAUSES = [
    Clause('dataset', cases, check, 'several records, estimator which knows about temperature', 900, 15000),
    Clause('any estimator', scripts, check_script, 'several states, outputs and records', 400, 10000),
    Clause('row', rows, check_row, 'there is a temperature', 500, 5000),
    Clause('refusal', wrong, check_wrong, 'always', 40, 400),
]
ASSUMPTIONS = ['Records given to cell models are in order of time']
