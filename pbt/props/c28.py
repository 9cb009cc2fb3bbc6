"""Extracted capacities against the charge of each cycle, computed by hand"""
import numpy as np
import pandas as pd
from battdat.data import CellDataset
from hypothesis import strategies as st

from moirae.extractors.ecm import MaxCapacityExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity

from .. import gen
from ..core import Clause, Reject, close, frames, require, same


@st.composite
def cases(draw):
    cycles = []
    for _ in range(draw(st.one_of(st.integers(1, 5), st.sampled_from([12, 25])))):
        sign = draw(st.sampled_from([1, 1, -1]))
        q, rows = 0., []
        n = draw(st.sampled_from([4, 6, 3, 2, 8] if len(cycles) < 6 else [3]))
        half = draw(st.integers(1, n))
        for k in range(n):
            cur = draw(gen.lognum(0.01, 20., 4)) * (sign if k < half else -sign)
            rows.append([draw(gen.lognum(0.1, 2000., 4)), 0. if draw(st.integers(0, 5)) == 0 else cur])
        cycles.append(rows)
    n = len(cycles)
    stat = draw(st.sampled_from([gen.num(0., 50.), gen.num(0., 50.), gen.num(-50., 50.)]))
    labels = draw(st.sampled_from(['plain', 'gaps', 'reversed', 'mixed']))
    numbers = {'plain': list(range(n)), 'gaps': [3 + 2 * k for k in range(n)], 'reversed': list(range(n))[::-1],
               'mixed': None}[labels]
    if numbers is None:
        numbers = list(draw(st.permutations([5 * k for k in range(n)])))
    return {'cycles': cycles, 'numbers': numbers, 'labels': labels, 'start': draw(st.sampled_from([0., 100., -50., 1e6])),
            'summary': draw(st.sampled_from(['none', 'none', 'other columns', 'capacities', 'some missing'])),
            'stats': [draw(stat) for _ in range(n)], 'order': draw(st.permutations(range(n))),
            'index': draw(st.sampled_from(['plain', 'shift', 'duplicate'])), 'scale': draw(gen.lognum(1e-2, 100., 3)),
            'offset': draw(gen.num(-1e5, 1e5, 4)), 'rests': draw(st.booleans())}


def records(cycles, rests):
    """Times, currents and cycles. With rests, each cycle starts and ends without current"""
    t, out = 0., []
    for c, rows in enumerate(cycles):
        rows = [[1., 0.]] + rows + [[1., 0.]] if rests else rows
        for dt, cur in rows:
            t += dt
            out.append((t, cur, c))
    return out


def charge(recs):
    """Largest amount charged in any of the cycles, A-hr"""
    best, clear = -np.inf, True
    for c in sorted({r[2] for r in recs}):
        ks = [k for k, r in enumerate(recs) if r[2] == c]
        part = recs[ks[0]:ks[-1] + 2]  # Until the first record of the next cycle
        if len(part) < 3:
            continue
        q, acc = [], 0.
        for (t0, i0, _), (t1, i1, _) in zip(part, part[1:]):
            acc += (i0 + i1) / 2 * (t1 - t0)
            q.append(acc)
        up, down = max(q), -min(q)
        if abs(up - down) <= 1e-6 * max(abs(up), abs(down)):
            clear = False
        best = max(best, (q[-1] + down if down > up else up) / 3600)
    return best, clear


def dataset(case, recs, numbers=None, offset=0., scale=1.):
    numbers = case['numbers'] if numbers is None else numbers
    frame = pd.DataFrame({'test_time': [r[0] + case['start'] + offset for r in recs], 'current': [r[1] * scale for r in recs],
                          'voltage': 3.7, 'cycle_number': [numbers[r[2]] for r in recs]})
    n = len(frame)
    frame.index = {'plain': range(n), 'shift': range(7, 7 + n), 'duplicate': [1] * n}[case['index']]
    return CellDataset(raw_data=frame)


def extract(data):
    before = data.raw_data.copy(deep=True)
    out = MaxCapacityExtractor().extract(data)
    require(type(out) is MaxTheoreticalCapacity, f'the result is a {type(out).__name__}')
    frames(data.raw_data, before, 'dataset')
    return out


def check(case, note):
    recs = records(case['cycles'], case['rests'])
    exp, clear = charge(recs)
    data = dataset(case, recs)
    if case['summary'] in ('capacities', 'some missing'):  # These are what counts
        stats = list(case['stats'])
        if case['summary'] == 'some missing' and len(stats) > 1:
            stats[int(np.argmax(stats))] = np.nan
        exp = np.nanmax(stats)
        table = pd.DataFrame({'cycle_number': case['numbers'], 'capacity_charge': stats, 'capacity_discharge': 77.})
        table = table.iloc[list(case['order'])]
        data.tables['cycle_stats'] = table
        out = extract(data)
        same(out.base_values, [[exp]], 'capacity')
        close(out.value, [[exp * 3600]], 'capacity in other units', 1e-12, 0)
        table['capacity_charge'] *= 3.
        close(extract(data).base_values, [[3 * exp]], 'capacity after scaling the summary', 1e-12, 0)
        note(case['summary'], nontrivial=len(stats) > 1)
        return
    if not np.isfinite(exp) or not clear:
        raise Reject
    if case['summary'] == 'other columns':
        data.tables['cycle_stats'] = pd.DataFrame({'cycle_number': case['numbers'], 'capacity_discharge': 77.})
    size = sum(abs(r[1]) for r in recs) * max(np.diff([r[0] for r in recs])) / 3600
    tol = 1e-9 * size + (1e-12 * abs(case['start']) * max(abs(r[1]) for r in recs))
    out = extract(data)
    close(out.base_values, [[exp]], 'capacity', 1e-8, tol)
    close(out.value, [[exp * 3600]], 'capacity in other units', 1e-8, tol * 3600)
    tol += 1e-11 * abs(case['offset']) * max(abs(r[1]) for r in recs)
    close(extract(dataset(case, recs, offset=case['offset'])).base_values, [[exp]], 'capacity if time starts elsewhere', 1e-8, tol)
    s = case['scale']
    close(extract(dataset(case, recs, scale=s)).base_values, [[exp * s]], 'capacity after scaling currents', 1e-8, tol * s)
    if case['rests']:  # Cycles can be put in another order, as nothing happens between them
        moved = records([case['cycles'][k] for k in case['order']], True)
        close(extract(dataset(case, moved)).base_values, [[exp]], 'capacity after changing the order of cycles', 1e-8, tol)
    note(f'summary: {case["summary"]}', case['labels'], 'rests' if case['rests'] else 'no rests',
         f'{min(len(case["cycles"]), 3)} cycles' if len(case['cycles']) < 3 else '3+ cycles', nontrivial=len(case['cycles']) > 1)


CLAUSES = [Clause('capacity', cases, check, 'several cycles', 1500, 40000)]
ASSUMPTIONS = ['Whether a cycle starts charged is decided as battdat documents, ties are skipped']
