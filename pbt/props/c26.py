"""Mean squared loss against simulating each candidate with the scalar model"""
import math

import numpy as np
import pandas as pd
from battdat.data import CellDataset
from hypothesis import strategies as st

from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.models.ecm import EquivalentCircuitModel, ECMASOH, ECMInput, ECMMeasurement, ECMTransientVector

from .. import ecmref as ref, estgen as eg, gen
from ..core import Clause, close, require, same


@st.composite
def cases(draw):
    case = draw(eg.problems(min_steps=0, max_steps=5, max_names=3, min_names=0, max_rc=2, repeat=gen.once_or_many, late=True))
    n = len(case['drive'])
    case['mark'] = True
    # (Again and again in long histories, as Hypothesis gives up if it has to draw much)
    few = range(min(n, 7))
    dv = [draw(gen.num(-0.05, 0.05)) for _ in few] if draw(st.booleans()) else [0.]
    # Temperatures may be missing, or not finite
    lost = [draw(st.sampled_from([False, False, True])) for _ in few]
    case['dv'], case['lost'] = ([x[k % len(x)] for k in range(n)] for x in (dv, lost))
    prob = eg.Problem(case, mark=True)
    width = len(prob.x0) + len(prob.p0)
    m = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 9, 20]))
    case['points'] = eg.some(draw, [[draw(gen.num(-1.5, 1.5, 3)) for _ in range(width)] for _ in range(m)], prob.num_states)
    case['with x0'] = draw(st.booleans())
    case['order'] = draw(st.permutations(range(m + 1)))
    case['index'] = draw(st.sampled_from(['plain', 'shift', 'reversed', 'duplicate']))
    case['extra'] = draw(st.booleans())
    case['later'] = draw(st.lists(st.sampled_from(['data', 'new data', 'asoh', 'state', 'model']), max_size=2, unique=True))
    return case


class Fit:
    """Objects of a fit"""

    def __init__(self, case):
        self.case = case
        self.prob = prob = eg.Problem(case, mark=True)
        known = case['drive'][0]['temperature'] is not None
        self.drive = []
        for x, lost in zip(case['drive'], case['lost']):
            t = x['temperature'][0][0] if known and not lost else math.nan
            self.drive.append({**x, 'temperature': [[t if math.isfinite(t) else 25.]]})
        # The true voltages, for the initial guess
        self.truth = np.array(self.voltages(prob.x0, prob.p0))
        rows = []
        for x, lost, v, dv in zip(case['drive'], case['lost'], self.truth, case['dv']):
            row = {'test_time': x['time'][0][0], 'current': x['current'][0][0], 'voltage': float(v + dv)}
            if known:
                row['temperature'] = math.nan if lost else x['temperature'][0][0]
            if case['extra']:
                row.update(cycle_number=3, state='charging')
            rows.append(row)
        self.frame = pd.DataFrame(rows)
        n = len(rows)
        self.frame.index = {'plain': range(n), 'shift': range(5, 5 + n), 'reversed': range(n - 1, -1, -1),
                            'duplicate': [0] * n}[case['index']]
        self.observed = self.truth + np.array(case['dv'])
        self.data = CellDataset(raw_data=self.frame.copy())
        self.x0 = np.concatenate([prob.x0, prob.p0])
        self.sd = np.sqrt(np.concatenate([np.diag(prob.cov['transient']), np.diag(prob.cov['asoh'])]))
        self.objective = MeanSquaredLoss(cell_model=prob.model, asoh=prob.asoh, transient_state=prob.state,
                                         observations=self.data)

    def voltages(self, x, p):
        asoh = eg.write(self.case['asoh'], self.prob.names, p)
        state, out = eg.state_spec(x, self.case['state']), []
        for k, inp in enumerate(self.drive):
            if k > 0:
                new = ref.ref_update(asoh, state, self.drive[k - 1], inp, self.case['behavior'], 0)
                vec = [new['soc']] + ([new['q0']] if new['q0'] is not None else []) + list(new['i_rc']) + [new['hyst']]
                state = eg.state_spec(vec, self.case['state'])
            out.append(sum(ref.ref_voltage(asoh, state, inp, 0).values()))
        return out

    def loss(self, x):
        n = self.prob.num_states
        return float(np.mean((np.array(self.voltages(x[:n], x[n:])) - self.observed) ** 2))

    def snapshot(self):
        obj = self.objective
        return [obj.asoh.get_parameters(obj.asoh.all_names).tolist(), list(obj.asoh.updatable_names),
                obj.state.to_numpy().tolist(), obj.observations.raw_data.to_csv(), obj.get_x0().tolist()]


def check(case, note):
    fit = Fit(case)
    prob = fit.prob
    # Later changes of the objects given do not matter
    before = fit.snapshot()
    prob.asoh.update_parameters(np.full((1, len(prob.p0)), 0.123)) if len(prob.p0) else None
    prob.state.from_numpy(prob.x0[None, :] + 0.1)
    require(fit.snapshot() == before, 'the objective changes with the objects used to build it')
    same(fit.objective.get_x0(), fit.x0, 'starting point')

    points = fit.x0 + np.array(case['points']) * fit.sd
    if case['with x0']:
        points = np.concatenate([points, fit.x0[None, :]])[[i for i in case['order']]]
    given = points.copy()
    found = fit.objective(points)
    same(points, given, 'candidates after evaluating them')
    require(fit.snapshot() == before, 'evaluating changes the objective')
    exp = np.array([fit.loss(x) for x in points])
    # Rounding errors of voltages
    tol = 1e-8
    require(np.shape(found) == (len(points),), f'shape of the losses: {np.shape(found)}')
    close(np.sqrt(found), np.sqrt(exp), 'root of the loss', 1e-7, tol)
    close((found - exp) / (2 * np.sqrt(exp) * tol + 1e-6 * exp + tol ** 2), np.zeros(len(exp)), 'loss, relative to rounding errors', 0, 1.)
    again = fit.objective(points)
    same(again, found, 'losses when evaluated again')
    for k in range(len(points)):
        close(np.sqrt(fit.objective(points[[k]])), np.sqrt(found[[k]]), f'root of the loss of candidate {k} alone', 1e-9, 1e-9)
    start = fit.objective(fit.objective.get_x0()[None, :])
    close(np.sqrt(start), [np.sqrt(np.mean(np.array(case['dv']) ** 2))], 'root of the loss of the starting point', 1e-7, tol)
    require(fit.snapshot() == before, 'evaluating changes the objective')

    # Whoever changes the objective gets the loss of what it has then
    obj = fit.objective
    for what in case['later']:
        if what == 'data':
            obj.observations.raw_data['voltage'] += 0.01
        elif what == 'new data':
            frame = fit.frame.copy()
            frame['voltage'] -= 0.02
            obj.observations = CellDataset(raw_data=pd.concat([frame, frame.iloc[[-1]]]))
        elif what == 'asoh':
            obj.asoh.ocv.ocv_ref.base_values = obj.asoh.ocv.ocv_ref.base_values + 0.015
        elif what == 'state':
            obj.state.from_numpy(obj.state.to_numpy() * 0.9)
        else:
            obj.cell_model = ref.ECM('linear' if case['behavior'] == 'constant' else 'constant')
    if case['later']:
        fresh = MeanSquaredLoss(obj.cell_model, obj.asoh, obj.state, CellDataset(raw_data=obj.observations.raw_data.copy()))
        if case['extra']:
            close(np.sqrt(obj(fit.x0[None, :])), np.sqrt(fresh(fit.x0[None, :])), f'root of the starting point after changing {case["later"]}', 1e-9, 1e-9)
        close(np.sqrt(obj(points)), np.sqrt(fresh(points)), f'root of the loss after changing {case["later"]}', 1e-9, 1e-9)
        for x in (fit.x0, points[-1]):
            close(np.sqrt(obj(x[None, :])), np.sqrt(fresh(x[None, :])), f'root of the loss of one candidate after changing {case["later"]}', 1e-9, 1e-9)
        same(obj.get_x0(), fresh.get_x0(), f'starting point after changing {case["later"]}')
    note(f'{len(points)} candidates', f'{len(prob.names)} parameters', 'exact data' if not any(case['dv']) else 'noise',
         f'{min(len(fit.drive), 3)} records' if len(fit.drive) < 3 else '3+ records',
         'temperature' if case['drive'][0]['temperature'] is not None else 'no temperature', case['behavior'],
         nontrivial=len(points) > 1 and len(fit.drive) > 1)


# --- Candidates which cannot be simulated
class Limited(EquivalentCircuitModel):
    """Has no voltage for some states"""
    low: float = 0.
    start: float = 0.
    value: float = math.nan

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        out = super().calculate_terminal_voltage(new_inputs, transient_state, asoh)
        bad = np.logical_and(transient_state.soc < self.low, new_inputs.time >= self.start)
        return ECMMeasurement(terminal_voltage=np.where(bad, self.value, out.terminal_voltage))


@st.composite
def undefined(draw):
    n = draw(st.integers(2, 6))
    return {'soc': [draw(gen.num(0.1, 0.9, 3)) for _ in range(draw(st.integers(1, 4)))], 'current': [draw(gen.num(-2., 2., 3)) for _ in range(n)],
            'low': draw(gen.num(0., 1., 3)), 'from': draw(st.integers(0, n - 1)), 'value': draw(st.sampled_from(['nan', 'inf', '-inf']))}


def check_undefined(case, note):
    n = len(case['current'])
    frame = pd.DataFrame({'test_time': np.arange(n) * 60., 'current': case['current'], 'voltage': 3.7})
    asoh = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., R0=0.05, H0=0.)
    state = ECMTransientVector.provide_template(False, 0, soc=0.5)
    model, whole = Limited(), EquivalentCircuitModel()
    model.low, model.start, model.value = case['low'], case['from'] * 60., float(case['value'])
    points = np.array([[s, 0.] for s in case['soc']])
    found = MeanSquaredLoss(model, asoh, state, CellDataset(raw_data=frame))(points)
    full = MeanSquaredLoss(whole, asoh, state, CellDataset(raw_data=frame))(points)
    require(np.shape(found) == (len(points),), f'shape of the losses: {np.shape(found)}')
    inputs = [ECMInput(time=60. * k, current=c) for k, c in enumerate(case['current'])]
    kinds = set()
    for k, s in enumerate(case['soc']):
        x, socs = ECMTransientVector.provide_template(False, 0, soc=s), [s]
        for a, b in zip(inputs, inputs[1:]):
            x = whole.update_transient_state(a, b, x, asoh)
            socs.append(x.soc.item())
        if min(abs(np.array(socs) - case['low'])) < 1e-9:
            continue
        bad = min(socs[case['from']:]) < case['low']
        kinds.add(bad)
        if bad:
            require(not np.isfinite(found[k]), f'the loss of candidate {k} is {found[k]} although it has records without a voltage')
        else:
            close(found[k], full[k], f'loss of candidate {k}, which is defined everywhere', 1e-9, 1e-12)
    note('first' if case['from'] == 0 else 'later', case['value'], *[str(k) for k in kinds], nontrivial=len(kinds) > 1)


CLAUSES = [Clause('loss', cases, check, 'several candidates and records', 1000, 30000),
           Clause('undefined', undefined, check_undefined, 'some candidates can be simulated and some not', 300, 5000)]
ASSUMPTIONS = ['Candidates stay within the range of tables']
