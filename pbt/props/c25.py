"""What is written to HDF5 against what is read back"""
import json
import os
import tempfile
from contextlib import ExitStack
from itertools import islice
from pathlib import Path

import h5py
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from hypothesis import strategies as st

from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import JointCellModelWrapper
from moirae.interface import run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates

from .. import estgen as eg, linmodel as lm
from ..core import Clause, fail, raises, require, same
from . import c20

MODES = ['full', 'mean_cov', 'mean_var', 'mean', 'none']
SYSTEM = {'m': {'F': np.eye(3), 'G': np.zeros((3, 5)), 'B0': np.zeros((3, 3)), 'B1': np.zeros((3, 3)), 'H': np.eye(3),
                'K': np.zeros((3, 5)), 'D': np.zeros((3, 3))}, 'x': [0.] * 3, 'p': [1.] * 5, 'u': [[0.] * 3]}
N_OUT = 3


def estimator(names, whole=False):
    """An estimator with three outputs and a number of state dimensions which depends on the parameters estimated"""
    case = {**SYSTEM, 'names': names}
    if whole:
        case.update(x=[0] * 3, p=[1] * 5)
    sys = lm.Linear(case)
    n = lm.size(case)
    wrapper = JointCellModelWrapper(cell_model=sys, asoh=sys.asoh, transients=sys.state, inputs=sys.input(0),
                                    asoh_inputs=tuple(names))
    return JointEstimator.initialize_ukf_from_wrapper(
        joint_wrapper=wrapper, covariance_joint=np.eye(n), joint_covariance_process_noise=np.eye(n),
        covariance_sensor_noise=np.eye(N_OUT)), n


def steps_of(spec, n):
    """Times, cycles and estimates"""
    rng = np.random.default_rng(spec['seed'])
    out, t, at = [], spec['start'], spec['first cycle']
    kinds = [int, float, np.int64, np.float64]

    def dist(k):
        root = rng.normal(size=(k, k)) * 10. ** rng.integers(-6, 7)
        mean = rng.normal(size=k) * 10. ** rng.integers(-12, 13)
        empty = rng.integers(0, 12)  # Nothing but zeros, sometimes
        return MultivariateGaussian(mean=mean * (empty not in (0, 1)), covariance=root @ root.T * (empty not in (0, 2)))
    for k in range(spec['steps']):
        if k > 0:
            t = t + float(np.round(rng.uniform(0, 100), 2)) * (rng.uniform() < 0.9)
            jump = spec['jumps'][k % len(spec['jumps'])]
            at = max(0, at + jump)
        out.append((t, kinds[spec['type']](at), dist(n), dist(N_OUT)))
    return out


@st.composite
def sequences(draw, long=True):
    sizes = [st.integers(0, 6)] * 4 + ([st.integers(100, 300)] if long else [])
    return {'steps': draw(draw(st.sampled_from(sizes))), 'start': draw(st.sampled_from([0., -5., 1e9, 0.25])),
            'first cycle': draw(st.sampled_from([0, 0, 1, 7, 130, 9000])), 'type': draw(st.integers(0, 3)),
            'jumps': draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 5, -1, 140]), min_size=1, max_size=6)),
            'seed': draw(st.integers(0, 10 ** 6))}


def firsts(steps):
    """First estimate of each cycle, by cycle number"""
    found = {}
    for s in steps:
        found.setdefault(int(s[1]), s)
    return [found[c] for c in sorted(found)]


def compare(source, per_step, mode, steps):
    what = 'per step' if per_step else 'per cycle'
    if mode == 'none':
        raises(lambda: list(read_state_estimates(source, per_timestep=per_step)), f'reading {what}, which is not written',
               ValueError)
        return
    if mode == 'full':
        raises(lambda: list(read_state_estimates(source, per_timestep=per_step, dist_type=DeltaDistribution)),
               f'{what}: reading as another type of distribution', ValueError)
    found = list(read_state_estimates(source, per_timestep=per_step))
    require(len(found) == len(steps), f'{what}: read {len(found)} estimates rather than {len(steps)}')
    for k, ((t, *dists), (t0, _, *given)) in enumerate(zip(found, steps)):
        same(t, t0, f'{what}: time of estimate {k}')
        for name, d, g in zip(('state', 'output'), dists, given):
            require(type(d) is (DeltaDistribution if mode == 'mean' else MultivariateGaussian),
                    f'{what}: {name} is a {type(d).__name__}')
            same(d.get_mean(), g.get_mean(), f'{what}: mean of {name} {k}')
            if mode != 'mean':
                cov = g.get_covariance()
                same(d.get_covariance(), np.diag(np.diag(cov)) if mode == 'mean_var' else cov,
                     f'{what}: covariance of {name} {k}')


@st.composite
def cases(draw):
    spec = draw(sequences())
    case = {'seq': spec, 'names': draw(st.lists(st.sampled_from(sorted(lm.NAMES)), min_size=1, max_size=3, unique=True)),
            'modes': [draw(st.sampled_from(MODES)) for _ in range(2)], 'resizable': draw(st.booleans()),
            'room': [draw(st.sampled_from(['exact', 'more', 'less', 'none'])) for _ in range(2)],
            'target': draw(st.sampled_from(['path', 'str', 'group', 'file', 'path'])),
            'key': draw(st.sampled_from(['state_estimates', 'state_estimates', 'mine', 'a/b'])),
            'options': draw(st.sampled_from([None, {}, {'compression': 'gzip'}])),
            'existing': draw(st.booleans()), 'whole': draw(st.integers(0, 3)) == 0,
            'interrupt': draw(st.sampled_from([None, None, 'error', 'bad state', 'bad output', 'bad time', 'stop'])),
            'at': draw(st.integers(0, 3)), 'again': draw(st.lists(st.sampled_from(
                ['prepare', 'append', 'outside', 'other modes']), max_size=3, unique=True)),
            # The same writer is used again, for another file or group
            'reuse': draw(st.sampled_from([None, None, 'file', 'key'])), 'second': draw(sequences(long=False))}
    if case['target'] in ('path', 'str') and case['key'] != 'state_estimates':
        case['key'] = 'state_estimates'  # Other ones can only be read from a group
    return case


class Interrupt(Exception):
    pass


def room(kind, n, resizable):
    if kind == 'none':
        return None if resizable else n
    return {'exact': n, 'more': n + 3, 'less': max(n - 2, 0)}[kind]


def check(case, note):
    est, n = estimator(case['names'], case['whole'])
    steps = steps_of(case['seq'], n)
    cycles = 1 + max([int(s[1]) for s in steps], default=0)
    sizes = [room(k, size, case['resizable']) for k, size in zip(case['room'], [len(steps), cycles])]
    kwargs = dict(per_timestep=case['modes'][0], per_cycle=case['modes'][1], resizable=case['resizable'],
                  storage_key=case['key'])
    if case['options'] is not None:
        kwargs['dataset_options'] = case['options']
    with ExitStack() as stack:
        scratch = stack.enter_context(tempfile.TemporaryDirectory(prefix='c25-'))
        path, group = os.path.join(scratch, 'out.h5'), None
        if case['existing']:
            with h5py.File(path, 'w') as f:
                f['other'] = np.arange(5.)
        if case['target'] in ('group', 'file'):
            file = group = stack.enter_context(h5py.File(path, 'a'))
            if case['target'] == 'group':
                group = file.create_group('deep').create_group('inside')
        target = group if group is not None else Path(path) if case['target'] == 'path' else path
        writer = HDF5Writer(hdf5_output=target, **kwargs)

        # Nothing can be written before it is open
        require(not writer.is_ready, 'ready before it is open')
        raises(lambda: writer.prepare(est, 3, 3), 'preparing before it is open', ValueError)
        some = (0., 0, MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)),
                MultivariateGaussian(mean=np.zeros(N_OUT), covariance=np.eye(N_OUT)))
        raises(lambda: writer.append_step(*some), 'writing before it is open', ValueError)

        done, half, stopped = [], [], False
        try:
            with writer:
                require(writer.is_ready, 'not ready when open')
                if not case['resizable'] and case['at'] == 1:
                    raises(lambda: writer.prepare(est, None, 3), 'fixed size without the number of steps', ValueError)
                    raises(lambda: writer.prepare(est, 3, None), 'fixed size without the number of cycles', ValueError)
                writer.prepare(est, *sizes)
                for k, s in enumerate(steps):
                    if case['interrupt'] is not None and k == case['at']:
                        stopped = True
                        bad = MultivariateGaussian(mean=np.arange(n + 2.), covariance=np.eye(n + 2))
                        if case['interrupt'] == 'error':
                            raise Interrupt
                        if case['interrupt'] == 'stop':
                            raise KeyboardInterrupt
                        if case['modes'] != ['none', 'none']:
                            if case['interrupt'] == 'bad time':
                                writer.append_step('soon', s[1], s[2], s[3])
                            elif case['interrupt'] == 'bad state':
                                writer.append_step(s[0], s[1], bad, s[3])
                            else:
                                writer.append_step(s[0], s[1], s[2], bad)
                            if case['modes'][0] != 'none' or int(s[1]) not in {int(x[1]) for x in done}:
                                fail(f'a {case["interrupt"]} was accepted')
                        raise Interrupt
                    overflow = not case['resizable'] and (
                        (case['modes'][0] != 'none' and k >= sizes[0]) or
                        (case['modes'][1] != 'none' and int(s[1]) >= sizes[1]))
                    if overflow:
                        stopped = True
                        raises(lambda: writer.append_step(*s), f'step {k} beyond the size')
                        if case['modes'][0] != 'none' and k < sizes[0]:
                            half.append(s)  # There was no room for the cycle, but for the step
                        raise Interrupt
                    writer.append_step(*s)
                    done.append(s)
        except (Interrupt, KeyboardInterrupt):
            require(stopped, 'interrupted')
        except (TypeError, ValueError, OSError, RuntimeError) as e:
            if not stopped:
                raise
            require(case['interrupt'].startswith('bad'), f'{type(e).__name__} {e}')
        require(not writer.is_ready, 'ready after it is closed')
        raises(lambda: writer.prepare(est, 3, 3), 'preparing after it is closed', ValueError)
        raises(lambda: writer.append_step(*some), 'writing after it is closed', ValueError)

        def verify(when):
            if group is not None:
                require(bool(group) and bool(file), f'{when}: the group of the caller is closed')
            source = target if group is None else group[case['key']]
            try:
                present = half and len(list(read_state_estimates(source))) > len(done)
                compare(source, True, case['modes'][0], done + half if present else done)
                compare(source, False, case['modes'][1], firsts(done))
            except AssertionError as e:
                fail(f'{when}: {e}')
            with ExitStack() as inner:
                f = file if group is not None else inner.enter_context(h5py.File(path, 'r'))
                if case['existing']:
                    same(f['other'][()], np.arange(5.), f'{when}: other content of the file')
                attrs = (group if group is not None else f)[case['key']].attrs
                require(tuple(attrs['state_names']) == tuple(est.state_names), f'{when}: names of the states')
                require(tuple(attrs['output_names']) == tuple(est.output_names), f'{when}: names of the outputs')
                settings = json.loads(attrs['write_settings'])
                require([settings['per_timestep'], settings['per_cycle']] == case['modes'], f'{when}: modes {settings}')
        verify('when closed')

        # Existing estimates are not overwritten
        for what in case['again']:
            if what == 'outside' or case['modes'] == ['none', 'none']:
                continue
            if what == 'append':
                if not done + half or case['modes'][0] == 'none':
                    continue
                with writer:
                    raises(lambda: writer.append_step(*some), 'writing over existing estimates', ValueError)
            else:
                new = dict(kwargs)
                if what == 'other modes':  # Only those which were written
                    new.update({k: MODES[(MODES.index(m) + 1) % 4] for k, m in zip(('per_timestep', 'per_cycle'), case['modes'])
                                if m != 'none'})
                other = HDF5Writer(hdf5_output=target, **new)
                with other:
                    raises(lambda: other.prepare(est, 3, 3), 'preparing over existing estimates', ValueError)
            verify(f'after {what} again')

        # The same writer for something else
        if case.get('reuse') is not None:
            more = steps_of(case['second'], n)
            where = os.path.join(scratch, 'second.h5')
            if case['reuse'] == 'file':
                writer.hdf5_output = where
            else:
                writer.storage_key = 'second'
            with writer:
                writer.prepare(est, len(more), 1 + max([int(s[1]) for s in more], default=0))
                for s in more:
                    writer.append_step(*s)
            with ExitStack() as inner:
                if case['reuse'] == 'file':
                    source = inner.enter_context(h5py.File(where, 'r'))[case['key']]
                else:
                    source = (group if group is not None else inner.enter_context(h5py.File(path, 'r')))['second']
                try:
                    compare(source, True, case['modes'][0], more)
                    compare(source, False, case['modes'][1], firsts(more))
                except AssertionError as e:
                    fail(f'written with the same writer: {e}')
            if case.get('reuse') == 'file' or group is not None:
                verify('after the writer was used again')
    note(*[f'{k}: {m}' for k, m in zip(('step', 'cycle'), case['modes'])], case['target'],
         'resizable' if case['resizable'] else 'fixed', f'interrupt: {case["interrupt"] if stopped else None}',
         'overflow' if stopped and case['interrupt'] is None else 'fits', 'many' if len(steps) > 100 else 'few',
         f'again: {len(case["again"])}', f'reuse: {case.get("reuse")}', nontrivial=len(done) > 1 and case['modes'] != ['none', 'none'])


# --- Files are released whatever the outcome of reading
@st.composite
def readings(draw):
    return {'seq': draw(sequences(long=False)), 'modes': [draw(st.sampled_from(MODES)) for _ in range(2)],
            'what': draw(st.sampled_from(['nothing', 'deep', 'estimates', 'estimates', 'missing'])),
            'how': [{'per step': draw(st.booleans()), 'take': draw(st.sampled_from([None, 0, 1, 2])),
                     'type': draw(st.sampled_from(['normal', 'delta'])), 'kind': draw(st.sampled_from(['str', 'path']))}
                    for _ in range(draw(st.integers(1, 3)))]}


def check_released(case, note):
    est, n = estimator(['a'])
    steps = steps_of(case['seq'], n)
    failures = 0
    with tempfile.TemporaryDirectory(prefix='c25-') as scratch:
        path = os.path.join(scratch, 'out.h5')
        if case['what'] != 'missing':
            with h5py.File(path, 'w') as f:
                f['other'] = 1.
                if case['what'] == 'deep':  # The group is there, but nothing inside
                    f.create_group('state_estimates')
        if case['what'] == 'estimates':
            with HDF5Writer(hdf5_output=path, per_timestep=case['modes'][0], per_cycle=case['modes'][1]) as w:
                w.prepare(est)
                for s in steps:
                    w.append_step(*s)
        for k, how in enumerate(case['how']):
            error = reader = None
            try:
                reader = read_state_estimates(
                    path if how['kind'] == 'str' else Path(path), per_timestep=how['per step'],
                    dist_type=DeltaDistribution if how['type'] == 'delta' else MultivariateGaussian)
                found = list(reader if how['take'] is None else islice(reader, how['take']))
            except Exception as e:
                error = e  # Keeps whatever was open when it was raised
                failures += 1
            if error is None:
                mode, given = case['modes'][not how['per step']], steps if how['per step'] else firsts(steps)
                require(how['take'] == 0 or case['what'] == 'estimates' and mode != 'none',
                        f'reading {k} of {case["what"]} gave {len(found)} estimates')
                require(how['take'] == 0 or [t for t, *_ in found] == [s[0] for s in given][:how['take']],
                        f'reading {k}: times {[t for t, *_ in found]}')
                if hasattr(reader, 'close'):
                    reader.close()
            reader = None
            if case['what'] == 'missing':
                require(not os.path.exists(path), 'reading created a file')
                continue
            try:
                with h5py.File(path, 'a') as f:
                    same(f['other'][()], 1., 'other content')
            except OSError as e:
                fail(f'the file cannot be written to after it was read ({"failed" if error else "stopped"}): {e}')
            del error
    note(case['what'], 'failed' if failures else 'read', nontrivial=failures or any(h['take'] for h in case['how']))


# --- Interrupted estimation over a dataset
@st.composite
def runs(draw):
    case = draw(eg.problems(min_steps=2, max_steps=5, max_names=1, max_rc=1, late=True))
    case.update(kind='plain', joint=False, mark=True, hidden=None, control=None, output=None)
    case['joint noise'] = False
    case['fail'] = draw(st.integers(0, len(case['drive']) - 1))
    case['how'] = draw(st.sampled_from(['step', 'interrupt', 'data']))
    case['target'] = draw(st.sampled_from(['path', 'group', 'writer', 'fixed']))
    case['modes'] = [draw(st.sampled_from(MODES[:4])) for _ in range(2)]
    case['cycles'] = sorted(draw(st.lists(st.integers(0, 4), min_size=len(case['drive']), max_size=len(case['drive']))))
    return case


def check_run(case, note):
    prob = eg.Problem(case, mark=True)
    est = c20.make(case, prob)
    rows = [{'test_time': x['time'][0][0], 'current': x['current'][0][0], 'voltage': 3.5, 'cycle_number': c}
            for x, c in zip(case['drive'], case['cycles'])]
    if case['how'] == 'data':
        rows[case['fail']]['voltage'] = 'broken'
    results, inner = [], est.step

    def step(inputs, measurements):
        if case['how'] != 'data' and len(results) == case['fail']:
            raise KeyboardInterrupt if case['how'] == 'interrupt' else RuntimeError('sensor is lost')
        results.append(inner(inputs, measurements))
        return results[-1]
    est.step = step
    modes = case['modes'] if case['target'] in ('writer', 'fixed') else ['mean', 'full']
    with ExitStack() as stack:
        scratch = stack.enter_context(tempfile.TemporaryDirectory(prefix='c25-'))
        path = os.path.join(scratch, 'out.h5')
        target, source = path, path
        if case['target'] == 'group':
            target = stack.enter_context(h5py.File(path, 'w')).create_group('here')
        elif case['target'] in ('writer', 'fixed'):
            target = HDF5Writer(hdf5_output=path, per_timestep=modes[0], per_cycle=modes[1], resizable=case['target'] == 'writer')
        try:
            run_online_estimate(CellDataset(raw_data=pd.DataFrame(rows)), est, hdf5_output=target)
            fail('the error disappeared')
        except (KeyboardInterrupt, RuntimeError, ValueError, TypeError):
            pass
        require(len(results) == case['fail'], f'{len(results)} steps before the error at {case["fail"]}')
        if case['target'] == 'group':
            source = target['state_estimates']
        steps = [(r['test_time'], r['cycle_number'], *x) for r, x in zip(rows, results)]
        compare(source, True, modes[0], steps)
        compare(source, False, modes[1], firsts(steps))
    note(case['how'], case['target'], nontrivial=case['fail'] > 0)


CLAUSES = [
    Clause('writer', cases, check, 'several steps are written', 700, 25000),
    Clause('released', readings, check_released, 'a reading fails or stops early', 150, 5000),
    Clause('interrupted run', runs, check_run, 'some steps before the error', 150, 5000),
]
ASSUMPTIONS = ['Cycle numbers are not negative, times are finite', 'Other storage keys are read from groups']
