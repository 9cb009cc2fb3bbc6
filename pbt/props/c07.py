"""Update of the transient state against an independent scalar solution of the circuit equations"""
import numpy as np
from hypothesis import strategies as st

from .. import ecmref as ref, gen
from ..core import Clause, close, require


@st.composite
def cases(draw, batched=False):
    batch = draw(st.sampled_from([2, 3])) if batched else 1
    wide = draw(st.sampled_from([None, None, None, 'constant', 'constant', 'tables']))  # Beyond empty and full
    asoh = draw(gen.circuit(batch, constant=True if wide == 'constant' else None, fast=True))
    if draw(st.integers(0, 15)) == 0:  # A filter may take it above one
        asoh['ce'] = [[1. + draw(gen.num(0.001, 0.2))]]
    prev, new = draw(gen.input_pair(batch))
    return {'asoh': asoh, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=(-0.2, 1.2) if wide else (0.02, 0.98))),
            'prev': prev, 'new': new, 'behavior': draw(gen.behaviors)}


def defined(case, batch):
    """Whether tables which are extrapolated give time constants which are positive"""
    for b in range(batch):
        soc = ref.pick(case['state']['soc'], b)
        if np.isnan(ref.table(case['asoh']['h0'], b, soc)):
            return False
        for rc in case['asoh']['rc']:
            r, c = ref.table(rc['r'], b, soc), ref.table(rc['c'], b, soc)
            if not (r > 0.01 * max(map(max, rc['r']['vals'])) and c > 0.01 * max(map(max, rc['c']['vals']))):
                return False
    return True


def compare_state(actual, expected, batch, tol_scale=1.):
    """Compare a transient state to a list of reference states, one per member"""
    has_q0 = expected[0]['q0'] is not None
    require((actual.q0 is not None) == has_q0, 'presence of series capacitor charge changed')
    for name in ['soc', 'q0', 'hyst'] if has_q0 else ['soc', 'hyst']:
        val = ref.expand(getattr(actual, name), batch)
        exp = np.array([[e[name]] for e in expected])
        scale = float(np.max(np.abs(exp)))
        close(val, exp, name, rtol=1e-8, atol=1e-10 * (1 + scale) * tol_scale)
    val = ref.expand(actual.i_rc, batch)
    exp = np.array([e['i_rc'] for e in expected], dtype=float).reshape((batch, -1))
    require(val.shape == exp.shape, f'i_rc: shape {val.shape}, expected {exp.shape}')
    for b in range(batch):
        close(val[b], exp[b], f'i_rc of member {b}', rtol=1e-8,
              atol=1e-9 * tol_scale + 2e-14 * expected[b]['cond'])


def label(case, note):
    note(case['behavior'], f'{len(case["asoh"]["rc"])} RC', 'C0' if case['asoh']['c0'] else 'no C0',
         'temperature' if case['prev']['temperature'] else 'no temperature')
    batch = ref.batch_of(case)
    active = False
    for b in range(batch):
        i0, i1 = ref.pick(case['prev']['current'], b), ref.pick(case['new']['current'], b)
        dt = ref.pick(case['new']['time'], b) - ref.pick(case['prev']['time'], b)
        note('charge' if i0 > 0 else 'discharge' if i0 < 0 else 'from rest')
        if case['behavior'] == 'linear' and i0 * i1 < 0:
            note('through zero')
        if dt == 0:
            note('no duration')
        active |= dt > 0 and (i0 != 0 or i1 != 0)
    if active:
        note(nontrivial=True)


def check(case, note):
    batch = ref.batch_of(case)
    if not defined(case, batch):
        return note('undefined')
    asoh, state = ref.build_asoh(case['asoh']), ref.build_transient(case['state'])
    prev, new = ref.build_input(case['prev']), ref.build_input(case['new'])
    before = [asoh.get_parameters(asoh.all_names).tolist(), *ref.snapshot(state, prev, new)]
    out = ref.ECM(case['behavior']).update_transient_state(
        previous_inputs=prev, new_inputs=new, transient_state=state, asoh=asoh)
    exp = [ref.ref_update(case['asoh'], case['state'], case['prev'], case['new'], case['behavior'], b)
           for b in range(batch)]
    compare_state(out, exp, batch)
    after = [asoh.get_parameters(asoh.all_names).tolist(), *ref.snapshot(state, prev, new)]
    require(before == after, 'the update changed its arguments')
    label(case, note)


# --- Numbers rather than arrays, and the default behaviour
@st.composite
def template_cases(draw):
    n = draw(st.integers(0, 3))
    c0 = draw(st.booleans())
    h = draw(gen.history(1, 4))
    return {'n': n, 'c0': c0, 'soc': draw(gen.num(0.1, 0.9)), 'history': h,
            'behavior': draw(st.sampled_from([None, 'constant', 'linear'])),
            'qt': draw(gen.lognum(0.5, 20.)), 'ce': draw(gen.num(0.8, 1.))}


def check_template(case, note):
    """Chains of steps for circuits made with the template, where inputs are plain numbers"""
    asoh = ref.ECMASOH.provide_template(has_C0=case['c0'], num_RC=case['n'], qt=case['qt'], CE=case['ce'])
    spec = {
        'q_t': [[case['qt']]], 'ce': [[case['ce']]],
        'c0': {'vals': asoh.c0.base_values.tolist(), 'pins': None, 'style': 'linear'} if case['c0'] else None,
        'rc': [{'r': {'vals': [[0.01]], 'pins': None, 'style': 'linear', 'tref': 25., 'tdep': [[0.0025]]},
                'c': {'vals': [[2500.]], 'pins': None, 'style': 'linear'}}] * case['n'],
        'h0': {'vals': [[0.05]], 'pins': None, 'style': 'linear', 'gamma': [[0.9]]}}
    state = ref.ECMTransientVector.provide_template(has_C0=case['c0'], num_RC=case['n'], soc=case['soc'])
    model = ref.ECM() if case['behavior'] is None else ref.ECM(current_behavior=case['behavior'])
    st_spec = {'soc': [[case['soc']]], 'hyst': [[0.]], 'q0': [[0.]] if case['c0'] else None, 'i_rc': [[0.] * case['n']]}
    cond = 0.
    for prev, new in zip(case['history'], case['history'][1:]):
        state = model.update_transient_state(ref.build_input(prev), ref.build_input(new), state, asoh)
        exp = ref.ref_update(spec, st_spec, prev, new, case['behavior'] or 'constant', 0)
        cond += exp['cond']
        compare_state(state, [{**exp, 'cond': cond}], 1, tol_scale=10)
        st_spec = {'soc': [[exp['soc']]], 'hyst': [[exp['hyst']]], 'i_rc': [exp['i_rc']],
                   'q0': [[exp['q0']]] if case['c0'] else None}
    note(str(case['behavior']), nontrivial=any(x['current'] for x in case['history']))


_rule = 'the step has a duration and current flows'
CLAUSES = [
    Clause('update', cases, check, _rule, quick=2400, thorough=100000),
    Clause('batch', lambda: cases(True), check, _rule, quick=700, thorough=30000),
    Clause('template', template_cases, check_template, 'current flows at some point', quick=400, thorough=15000),
]
ASSUMPTIONS = ['Time does not run backwards; resistances, capacitances and capacity are positive']
