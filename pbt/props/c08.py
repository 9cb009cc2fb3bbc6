"""Splitting steps"""
import numpy as np
from hypothesis import strategies as st

from .. import ecmref as ref, gen
from ..core import Clause, close
from .c07 import compare_state


@st.composite
def split_cases(draw):
    asoh = draw(gen.circuit(1, constant=True, tdep=False))
    state = draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None))
    behavior = draw(gen.behaviors)
    i0 = draw(gen.currents)
    if behavior == 'constant':
        i1 = i0
    else:
        i1 = draw(st.one_of(gen.currents, st.just(i0), gen.num(0.1, 5.).map(lambda x: -x if i0 > 0 else x)))
    fracs = sorted(set(draw(st.lists(gen.num(0., 1., 3), min_size=1, max_size=6))))
    if i0 * i1 < 0 and draw(st.booleans()):
        fracs = sorted(set(fracs + [i0 / (i0 - i1)]))  # Exactly where current passes zero
    return {'asoh': asoh, 'state': state, 'behavior': behavior, 'i0': i0, 'i1': i1, 'fracs': fracs,
            't0': draw(st.sampled_from([0., 0., 1000.])),
            'dt': draw(st.one_of(gen.num(1., 100.), gen.num(100., 3600.), gen.num(0.01, 1.))),
            'temp': draw(st.one_of(st.none(), gen.num(0., 50.)))}


def check_split(case, note):
    asoh = ref.build_asoh(case['asoh'])
    model = ref.ECM(case['behavior'])
    i0, i1, t0, dt = case['i0'], case['i1'], case['t0'], case['dt']

    def inp(f):
        cur = i0 + (i1 - i0) * f
        if abs(cur) < 1e-13 * (abs(i0) + abs(i1)):
            cur = 0.
        return ref.build_input({'time': t0 + f * dt, 'current': cur, 'temperature': case['temp']})

    first, last = inp(0.), inp(1.)
    whole = model.update_transient_state(first, last, ref.build_transient(case['state']), asoh)
    state, prev = ref.build_transient(case['state']), first
    pts = [inp(f) for f in case['fracs']] + [last]
    for new in pts:
        state = model.update_transient_state(prev, new, state, asoh)
        prev = new
    exp = {'soc': float(whole.soc.item()), 'hyst': float(whole.hyst.item()), 'i_rc': whole.i_rc[0].tolist(),
           'q0': None if whole.q0 is None else float(whole.q0.item())}
    slope = abs(i1 - i0) / dt
    taus = [x['r']['vals'][0][0] * x['c']['vals'][0][0] for x in case['asoh']['rc']] or [0.]
    exp['cond'] = slope * max(taus) * len(pts) * 2
    compare_state(state, [exp], 1, tol_scale=1000)
    kind = 'flips' if i0 * i1 < 0 else 'constant' if i0 == i1 else 'from rest' if i0 == 0 else \
        'to rest' if i1 == 0 else 'ramp'
    inner = any(0 < f < 1 for f in case['fracs'])
    note(case['behavior'], kind, nontrivial=inner and (i0 != 0 or i1 != 0))


@st.composite
def zero_cases(draw):
    batch = draw(st.sampled_from([1, 1, 2]))
    asoh = draw(gen.circuit(batch))
    prev, new = draw(gen.input_pair(batch, dt=st.just(0.)))
    return {'asoh': asoh, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch)),
            'prev': prev, 'new': new, 'behavior': draw(gen.behaviors)}


def check_zero(case, note):
    state = ref.build_transient(case['state'])
    batch = ref.batch_of(case)
    out = ref.ECM(case['behavior']).update_transient_state(ref.build_input(case['prev']), ref.build_input(case['new']),
                                                           state, ref.build_asoh(case['asoh']))
    for name in ['soc', 'hyst', 'i_rc'] + (['q0'] if state.q0 is not None else []):
        close(ref.expand(getattr(out, name), batch), ref.expand(getattr(state, name), batch), name, 1e-9, 1e-10)
    cur = case['prev']['current'] != case['new']['current']
    note(case['behavior'], 'current changes' if cur else 'same current', nontrivial=cur)


@st.composite
def small_cases(draw):
    asoh = draw(gen.circuit(1, constant=True, tdep=False))
    asoh['q_t'] = [[draw(gen.lognum(1., 1e4))]]
    return {'asoh': asoh, 'behavior': draw(gen.behaviors), 'current': draw(st.one_of(gen.num(0.1, 5.), gen.num(-5., -0.1))),
            'steps': draw(st.integers(5, 60)), 'dt': draw(gen.lognum(1e-3, 1., 2)), 'given': draw(st.booleans())}


def check_small(case, note):
    """Many small steps from rest, each of which changes the states by little. Compare relative to what changed"""
    spec, n = case['asoh'], case['steps']
    asoh, model = ref.build_asoh(spec), ref.ECM(case['behavior'])
    zero = {'soc': [[0.]], 'hyst': [[0.]], 'i_rc': [[0.] * len(spec['rc'])], 'q0': None if spec['c0'] is None else [[0.]]}

    def inp(k):
        return ref.build_input({'time': k * case['dt'], 'current': case['current'], 'temperature': 25. if case['given'] else None})
    whole = model.update_transient_state(inp(0), inp(n), ref.build_transient(zero), asoh).to_numpy()[0]
    state = ref.build_transient(zero)
    for k in range(n):
        state = model.update_transient_state(inp(k), inp(k + 1), state, asoh)
    found, names = state.to_numpy()[0], state.all_names
    for name, a, b in zip(names, found, whole):
        # Exponentials lose digits when the step is much shorter than the time of relaxation
        rate = 1.
        if name == 'hyst':
            rate = 0.7 * spec['h0']['gamma'][0][0] * abs(case['current']) / (3600 * spec['q_t'][0][0])
        elif name.startswith('i_rc'):
            rate = 1 / max(np.max(x['r']['vals']) * np.max(x['c']['vals']) for x in spec['rc'])
        tol = 1e-6 + 1e-15 / max(rate * case['dt'], 1e-300)
        close(a / b if b else a, 1. if b else 0., f'{name} relative to a single step', 0, tol)
    note(case['behavior'], f'{len(names)} states', nontrivial=bool((whole != 0).all()))


CLAUSES = [
    Clause('small', small_cases, check_small, 'all states change', 400, 15000),
    Clause('split', split_cases, check_split, 'there is an intermediate point and current flows', 2000, 80000),
    Clause('zero', zero_cases, check_zero, 'current changes over the step', 700, 30000),
]
