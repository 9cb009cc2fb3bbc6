"""Extracted open-circuit voltages against a weighted spline fitted by other means"""
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from hypothesis import strategies as st
from scipy.interpolate import BSpline

from moirae.extractors.ecm import OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage

from .. import gen
from ..core import Clause, close, frames, raises, require, same

STYLES = ['linear', 'cubic', 'quadratic', 'nearest', 'slinear']


@st.composite
def cases(draw):
    n = draw(st.integers(5, 12)) if draw(st.integers(0, 7)) else draw(st.integers(13, 40))
    if draw(st.booleans()):
        points = n
    else:
        gaps = [draw(st.integers(1, 4)) for _ in range(n - 1)]
        points = [0.] + [gen.sig(sum(gaps[:k + 1]) / sum(gaps), 6) for k in range(n - 1)]
        if draw(st.booleans()):  # Points at the ends need not be at the ends of the data
            points = [gen.sig(0.02 + 0.95 * x, 6) for x in points]
    return {'points': points, 'per': draw(st.integers(3, 6)), 'seed': draw(st.integers(0, 10 ** 6)),
            'capacity': draw(gen.lognum(0.05, 50., 4)), 'object': draw(st.booleans()), 'style': draw(st.sampled_from(STYLES)),
            'spread': draw(st.sampled_from([0., 1., 2.])), 'rests': draw(st.integers(0, 3)),
            'noise': draw(st.sampled_from([0., 0.02, 0.3])), 'order': draw(st.sampled_from(['sorted', 'random', 'there and back'])),
            'index': draw(st.sampled_from(['plain', 'shift', 'duplicate'])), 'gain': draw(gen.num(-3., 3., 3)),
            'offset': draw(gen.num(-3., 3., 3)), 'scale': draw(st.one_of(gen.lognum(0.1, 100., 3), gen.lognum(1e-3, 1e6, 3))), 'extra': draw(st.booleans()),
            'repeat': draw(st.sampled_from([1, 1, 2, 3])), 'ends': draw(st.sampled_from([[0., 1.], [0., 1.], [0.02, 1.], [0., 0.97], [0.03, 1.02], [-0.02, 0.98]]))}


class Curve:
    """Data sampled from a spline with the knots of the extractor"""

    def __init__(self, case):
        self.case = case
        rng = np.random.default_rng(case['seed'])
        pts = case['points']
        self.points = np.linspace(0, 1, pts) if isinstance(pts, int) else np.array(pts)
        lo, hi = case['ends']  # The data need not end at empty and full
        lo, hi = min(lo, self.points[1] / 2), max(hi, (1 + self.points[-2]) / 2)
        edges = np.concatenate([[lo], self.points[1:-1], [hi]])
        soc = np.concatenate([a + (b - a) * np.concatenate([[0.], np.sort(rng.uniform(0.02, 0.98, case['per'])), [1.]])
                              for a, b in zip(edges, edges[1:])])
        soc = np.unique(soc)
        if case['repeat'] > 1:  # Several measurements at the same charge
            soc = np.sort(np.concatenate([soc, *[soc[rng.random(len(soc)) < 0.5] for _ in range(case['repeat'] - 1)]]))
        self.knots = np.concatenate([[lo] * 4, self.points[1:-1], [hi] * 4])
        self.coefs = 3.6 + rng.normal(size=len(self.knots) - 4) * 0.3
        current = rng.choice([-1, 1], len(soc)) * 10. ** rng.uniform(-case['spread'], 0, len(soc)) * 5
        self.rest = rng.choice(len(soc), case['rests'], replace=False)
        current[self.rest] = 0.
        voltage = BSpline(self.knots, self.coefs, 3)(soc) + case['noise'] * rng.normal(size=len(soc))
        order = {'sorted': np.arange(len(soc)), 'random': rng.permutation(len(soc)),
                 'there and back': np.concatenate([np.arange(0, len(soc), 2), np.arange(1, len(soc), 2)[::-1]])}[case['order']]
        self.soc, self.current, self.voltage = soc[order], current[order], voltage[order]

    def data(self, current=None, voltage=None, order=None):
        case = self.case
        frame = pd.DataFrame({'test_time': np.arange(len(self.soc)) * 1., 'cycle_number': 0,
                              'current': self.current if current is None else current,
                              'voltage': self.voltage if voltage is None else voltage,
                              'cycle_capacity': self.soc * case['capacity']})
        if case['extra']:
            frame['state'] = 'charging'
        n = len(frame)
        if order is not None:
            frame = frame.iloc[order].reset_index(drop=True)
        frame.index = {'plain': range(n), 'shift': range(7, 7 + n), 'duplicate': [1] * n}[case['index']]
        return CellDataset(raw_data=frame)

    def fit(self, current=None):
        """Weighted least squares, by another algorithm, and how much rounding matters"""
        cur = self.current if current is None else current
        w = 1 / np.maximum(np.abs(cur), 1e-6)
        w /= w.max()
        basis = np.array([BSpline(self.knots, np.eye(len(self.coefs))[k], 3)(self.soc) for k in range(len(self.coefs))]).T
        q, r = np.linalg.qr(basis * w[:, None])
        coefs = np.linalg.solve(r, q.T @ (self.voltage * w))
        cond, size = np.linalg.cond(r), np.linalg.norm(r, 2)
        residual = np.linalg.norm((basis @ coefs - self.voltage) * w)
        return BSpline(self.knots, coefs, 3)(self.points), 1e-12 * cond + 1e-14 * cond ** 2 * residual / size + 1e-9


def extractor(case, **kwargs):
    cap = MaxTheoreticalCapacity(base_values=case['capacity']) if case['object'] else case['capacity']
    pts = case['points'] if isinstance(case['points'], int) else np.array(case['points'])
    return OCVExtractor(cap, soc_points=pts, interpolation_style=case['style'], **kwargs)


def check(case, note):
    curve = Curve(case)
    ext = extractor(case)
    same(ext.soc_points, curve.points, 'points')

    def extract(data):
        before = data.raw_data.copy(deep=True)
        out = ext.extract(data)
        require(type(out) is OpenCircuitVoltage, f'the result is a {type(out).__name__}')
        frames(data.raw_data, before, 'dataset')
        return out
    ocv = extract(curve.data())
    values = ocv.ocv_ref.base_values[0]
    exp, tol = curve.fit()
    close(values, exp, 'open-circuit voltage at the points', 0, tol)
    if case['noise'] == 0:
        close(values, BSpline(curve.knots, curve.coefs, 3)(curve.points), 'curve which is a spline', 0, tol)
    close(ext.interpolate_ocv(curve.data().raw_data), values, 'interpolation alone', 0, 1e-12)
    same(np.ravel(ocv.ocv_ref.soc_pinpoints), curve.points, 'pinpoints of the result')
    require(ocv.ocv_ref.interpolation_style == case['style'], f'style {ocv.ocv_ref.interpolation_style}')
    close(np.ravel(ocv(np.array([curve.points]))), values, 'result evaluated at the points', 0, 1e-9)
    close(np.ravel(ocv(np.array([curve.points]), temp=60.)), values, 'result at another temperature', 0, 1e-9)

    a, b = case['gain'], case['offset']
    got = extract(curve.data(voltage=a * curve.voltage + b)).ocv_ref.base_values[0]
    close(got, a * values + b, 'after offset and scaling of voltage', 0, tol * (1 + abs(a)) * 4)
    order = np.random.default_rng(case['seed'] + 1).permutation(len(curve.soc))
    close(extract(curve.data(order=order)).ocv_ref.base_values[0], values, 'after changing the order of rows', 0, tol)
    if case['rests'] == 0:
        close(extract(curve.data(current=curve.current * case['scale'])).ocv_ref.base_values[0], values,
              'after scaling all currents', 0, tol)
        close(extract(curve.data(current=-curve.current)).ocv_ref.base_values[0], values, 'with opposite currents', 0, tol)
    else:
        cur = curve.current * case['scale']
        exp, tol = curve.fit(cur)
        close(extract(curve.data(current=cur)).ocv_ref.base_values[0], exp, 'with other currents and rests', 0, tol)
    note(case['style'], f'noise {case["noise"]}', case['order'], 'rests' if case['rests'] else 'no rests',
         'grid' if isinstance(case['points'], int) else 'given points', nontrivial=case['noise'] > 0 and case['spread'] > 0)


# --- Data which sample too little
@st.composite
def partial(draw):
    return {'capacity': draw(gen.lognum(0.05, 50., 4)), 'object': draw(st.booleans()), 'points': 11, 'style': 'linear',
            'need': draw(st.one_of(st.none(), gen.num(0.1, 1., 3))), 'cover': [draw(gen.num(0.05, 1.3, 3)) for _ in range(
                draw(st.integers(1, 3)))], 'summary': draw(st.sampled_from(['none', 'capacities', 'other'])),
            'raw': draw(st.sampled_from([True, True, True, True, False, 'gone']))}


def check_partial(case, note):
    need = 0.95 if case['need'] is None else case['need']
    ext = extractor(case, **({} if case['need'] is None else {'soc_requirement': need}))
    t, rows = 0., []
    for c, f in enumerate(case['cover']):  # Charge, rest and discharge
        cur = f * case['capacity']
        for dt, i in [(0., cur), (3600., cur), (1e-3, 0.), (10., 0.), (1e-3, -cur), (3500., -cur), (1e-3, 0.), (1., 0.)]:
            t += dt
            rows.append({'test_time': t, 'current': i, 'voltage': 3.7, 'cycle_number': c})
    data = CellDataset(raw_data=pd.DataFrame(rows) if case['raw'] is not False else None)
    if case['summary'] == 'capacities':
        data.tables['cycle_stats'] = pd.DataFrame({'cycle_number': range(len(case['cover'])),
                                                   'capacity_charge': np.array(case['cover']) * case['capacity']})
    elif case['summary'] == 'other':
        data.tables['cycle_stats'] = pd.DataFrame({'cycle_number': range(len(case['cover'])), 'capacity_discharge': 1.})
    if case['raw'] == 'gone':
        del data.tables['raw_data']
    if case['raw'] in (False, 'gone'):
        raises(lambda: ext.check_data(data), 'data without time series', ValueError)
        note('no time series', nontrivial=True)
        return
    most = max(case['cover'])
    if abs(most - need) < 1e-5:
        return
    if most < need:
        raises(lambda: ext.check_data(data), f'data which sample {most} of the capacity, where {need} is needed', ValueError)
        note('rejected')
    else:
        ext.check_data(data)
        note('enough')
    note(f'summary: {case["summary"]}', nontrivial=len(case['cover']) > 1)


def check_default(case, note):
    """What is not asked for: eleven points from empty to full"""
    curve = Curve({**case, 'points': 11})
    ocv = OCVExtractor(case['capacity']).extract(curve.data())
    same(np.ravel(ocv.ocv_ref.soc_pinpoints), np.linspace(0, 1, 11), 'default points')
    require(ocv.ocv_ref.interpolation_style == 'cubic', 'default style')
    exp, tol = curve.fit()
    close(ocv.ocv_ref.base_values[0], exp, 'curve', 0, tol)
    note(nontrivial=True)


CLAUSES = [Clause('curve', cases, check, 'noise, and currents which differ', 1000, 25000),
           Clause('defaults', cases, check_default, 'always', 40, 500),
           Clause('too little', partial, check_partial, 'several cycles, or no data', 300, 5000)]
ASSUMPTIONS = ['Several records between all knots', 'Points beyond the data are on the polynomial of the nearest segment']
