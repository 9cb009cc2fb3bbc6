"""Batches against members run alone (differential: no reference model)"""
import numpy as np
from hypothesis import strategies as st

from .. import ecmref as ref, gen
from ..core import Clause, close, require


@st.composite
def cases(draw):
    batch = draw(st.sampled_from([2, 2, 3, 3, 4, 5]))
    asoh = draw(gen.circuit(batch, fast=True))
    prev, new = draw(gen.input_pair(batch))
    case = {'asoh': asoh, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch)),
            'prev': prev, 'new': new, 'behavior': draw(gen.behaviors), 'limits': [draw(gen.num(0., 1.)), 1.],
            'temp': draw(st.one_of(st.none(), gen.num(0., 50.)))}
    if draw(st.integers(0, 2)) == 0:  # Keep the batch in only a few leaves
        keep = draw(st.sets(st.sampled_from(['asoh', 'state', 'prev', 'new']), max_size=2))
        for k in ('asoh', 'state', 'prev', 'new'):
            if k not in keep:
                case[k] = ref.member(case[k], 0)
        if 'prev' not in keep and 'new' in keep:  # Time must not run backwards
            t0 = case['prev']['time'][0][0]
            case['new']['time'] = [[t0 + i] for i, _ in enumerate(case['new']['time'])]
        elif 'new' not in keep:
            tmax = max(t[0] for t in case['prev']['time'])
            case['new']['time'] = [[max(tmax, case['new']['time'][0][0])]]
    case['perm'] = draw(st.lists(st.integers(0, batch - 1), min_size=1, max_size=5))
    return case


def run(case):
    model = ref.ECM(case['behavior'])
    asoh, state = ref.build_asoh(case['asoh']), ref.build_transient(case['state'])
    prev, new = ref.build_input(case['prev']), ref.build_input(case['new'])
    v0 = model.calculate_terminal_voltage(prev, state, asoh).to_numpy()
    out = model.update_transient_state(prev, new, state, asoh)
    v1 = model.calculate_terminal_voltage(new, out, asoh).to_numpy()
    e = asoh.get_theoretical_energy(soc_limits=tuple(case['limits']), temperature=case['temp'])
    return {'voltage before': v0, 'state': out.to_numpy(), 'voltage after': v1, 'energy': np.asarray(e)}


def reorder(spec, perm, batch):
    """Pick members out of a batch"""
    def rows(v):
        return [v[p % len(v)] for p in perm] if len(v) > 1 else v
    if isinstance(spec, dict):
        return {k: rows(v) if ref._is_rows(k, v) else reorder(v, perm, batch) for k, v in spec.items()}
    if isinstance(spec, list):
        return [reorder(x, perm, batch) for x in spec]
    return spec


def check(case, note):
    parts = {k: case[k] for k in ('asoh', 'state', 'prev', 'new')}
    batch = ref.batch_of(parts)
    whole = run(case)
    taus = [np.max(x['r']['vals']) * np.max(x['c']['vals']) for x in case['asoh']['rc']] or [0.]
    slope = max((abs(ref.pick(case['prev']['current'], b) - ref.pick(case['new']['current'], b)) /
                 max(ref.pick(case['new']['time'], b) - ref.pick(case['prev']['time'], b), 1e-3))
                for b in range(batch))
    extra = 1e-13 * slope * max(taus) * 10
    for k, v in whole.items():
        require(v.ndim == 2 and v.shape[0] in (1, batch), f'{k}: shape {v.shape} for a batch of {batch}')
    for b in range(batch):
        alone = run({**case, **{k: ref.member(v, b) for k, v in parts.items()}})
        for k, v in alone.items():
            close(ref.expand(whole[k], batch)[b:b + 1], v, f'{k} of member {b}', rtol=1e-8, atol=1e-9 + extra)
    # Any selection of members
    perm = case['perm']
    picked = run({**case, **{k: reorder(v, perm, batch) for k, v in parts.items()}})
    for k, v in picked.items():
        exp = ref.expand(whole[k], batch)[[p % batch for p in perm]] if whole[k].shape[0] > 1 else whole[k]
        close(ref.expand(v, len(perm)), ref.expand(exp, len(perm)), f'{k} when reordered', rtol=1e-8,
              atol=1e-9 + extra)
    for k, v in parts.items():
        note(f'{k} batched' if ref.batch_of(v) > 1 else f'{k} single')
    note(case['behavior'], f'batch of {batch}', nontrivial=batch > 1)


CLAUSES = [Clause('members', cases, check, 'more than one member', quick=1200, thorough=50000)]
