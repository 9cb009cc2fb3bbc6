"""Templates: requested values are read back, and elements change one at a time"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Clause, close, raises, require, same

from moirae.models.ecm import EquivalentCircuitModel as ECM
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.components import (EntropicOCV, MaxTheoreticalCapacity, OpenCircuitVoltage, ReferenceOCV, Resistance)
from moirae.models.ecm.ins_outs import ECMInput
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.utils import realistic_fake_ocv


def table(draw, elem, most=4):
    """One value, or several"""
    if draw(st.integers(0, 15)) == 0:
        most = 60
    return draw(elem) if draw(st.booleans()) else [draw(elem) for _ in range(draw(st.integers(1, most)))]


@st.composite
def cases(draw):
    rc = draw(st.sampled_from([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 12]))
    ohm, farad = gen.lognum(1e-3, 0.5), gen.lognum(10., 1e4)
    case = {'has_C0': draw(st.booleans()), 'num_RC': rc}
    options = {'qt': lambda: draw(st.one_of(gen.lognum(0.05, 200.), st.integers(1, 5))), 'CE': lambda: draw(gen.num(0.8, 1.)),
               'OCV': lambda: table(draw, gen.num(2.5, 4.3), 6), 'R0': lambda: table(draw, ohm), 'H0': lambda: table(draw, gen.num(0., 0.2)),
               'C0': lambda: table(draw, gen.lognum(100., 1e6)),
               'RC': lambda: [[table(draw, ohm), table(draw, farad)] for _ in range(rc)]}
    case['options'] = {k: f() for k, f in options.items() if draw(st.booleans())}
    case['share'] = draw(st.booleans())  # Use the same array for all resistances
    case['wrong'] = draw(st.integers(0, 5))
    case['changes'] = draw(st.lists(st.tuples(st.integers(0, 50), gen.num(0.5, 1.5), st.booleans()), min_size=1, max_size=4))
    trans = {'soc': lambda: draw(gen.num(0., 1.)), 'q0': lambda: draw(gen.num(-100., 100.)),
             'hysteresis': lambda: draw(gen.num(-0.2, 0.2)),
             'i_rc': lambda: draw(gen.num(-5., 5.)) if draw(st.booleans()) else [draw(gen.num(-5., 5.)) for _ in range(rc)]}
    case['transient'] = {k: f() for k, f in trans.items() if draw(st.booleans())}
    case['as list'] = draw(st.booleans())
    case['capacity'] = draw(gen.lognum(0.05, 200.))
    case['seconds'] = draw(gen.lognum(1e-3, 1e6, 8))
    return case


def arrays(x):
    return np.array(x) if isinstance(x, list) else x


def arguments(case):
    out = {k: arrays(v) for k, v in case['options'].items() if k != 'RC'}
    if 'RC' in case['options']:
        out['RC'] = [tuple(arrays(x) for x in p) for p in case['options']['RC']]
        if case['share']:
            rows = [x if isinstance(x, np.ndarray) else np.array([x]) for x, _ in out['RC']]
            if rows:
                out['R0'] = rows[0]
                out['RC'] = [(rows[0], c) for _, c in out['RC']]
    return out


def read(asoh):
    """Every parameter"""
    return {n: asoh.get_parameters([n])[0].copy() for n in asoh.all_names}


def expected(case, args):
    rc = case['num_RC']
    qt = args.get('qt', 10.)
    out = {'q_t.base_values': qt, 'ce': args.get('CE', 1.), 'r0.base_values': args.get('R0', 0.05),
           'h0.base_values': args.get('H0', 0.05)}
    out['ocv.ocv_ref.base_values'] = args['OCV'] if 'OCV' in args else realistic_fake_ocv(np.linspace(0, 1, 20))
    if case['has_C0']:
        out['c0.base_values'] = args.get('C0', 3600 * qt / 0.01)  # At most 10 mV
    for k in range(rc):
        r, c = args['RC'][k] if 'RC' in args else (0.01, 2500.)
        out[f'rc_elements.{k}.r.base_values'], out[f'rc_elements.{k}.c.base_values'] = r, c
    return out


def check(case, note):
    rc, args = case['num_RC'], arguments(case)
    asoh = ECMASOH.provide_template(has_C0=case['has_C0'], num_RC=rc, **args)
    other = ECMASOH.provide_template(has_C0=case['has_C0'], num_RC=rc, **args)
    exp = expected(case, args)
    got = read(asoh)
    require(len(asoh.rc_elements) == rc and (asoh.c0 is not None) == case['has_C0'], 'elements')
    for n, v in exp.items():
        require(n in got, f'{n} is not there')
        close(got[n], np.atleast_1d(v), n, 1e-12, 0)
    if 'OCV' not in args:
        volts = asoh.ocv(soc=np.linspace(0, 1, 30)[None, :], temp=None)[0, 0]
        require((np.diff(volts) > 0).all() and 2.5 < volts[0] and volts[-1] < 4.5, f'default open-circuit voltage {volts}')
    left = {n for n in got if n.endswith('base_values')} | {'ce'}
    require(left == set(exp) | {'ocv.ocv_ent.base_values'}, f'parameters {sorted(got)}')
    require(asoh.batch_size == 1, 'batch')

    # Interchanging the elements which were given does not happen
    for name, dist in args.items():
        if isinstance(dist, np.ndarray):
            same(dist, arguments(case)[name], f'{name}, which was given')

    # States of the circuit
    trans_args = {k: (v if case['as list'] else arrays(v)) for k, v in case['transient'].items()}
    require(ECMTransientVector().soc.item() == 0 and ECMTransientVector().hyst.item() == 0 and ECMTransientVector().q0 is None,
            'default state')
    for state, vals in [(ECMTransientVector.from_asoh(asoh), {}),
                        (ECMTransientVector.provide_template(case['has_C0'], rc, **trans_args), case['transient'])]:
        i_rc = vals.get('i_rc', 0.)
        row = [vals.get('soc', 0.)] + ([vals.get('q0', 0.)] if case['has_C0'] else []) + \
            (i_rc if isinstance(i_rc, list) else [i_rc] * rc) + [vals.get('hysteresis', 0.)]
        close(state.to_numpy(), [row], 'state', 1e-12, 0)
        names = ['soc'] + ['q0'] * case['has_C0'] + [f'i_rc[{k}]' for k in range(rc)] * (rc > 1) + ['i_rc'] * (rc == 1) + ['hyst']
        require(len(state) == len(row), 'length')
        require([n for n in state.all_names if 'rc' not in n] == [n for n in names if 'rc' not in n], f'names {state.all_names}')
        # It is what the model works with
        if state.soc[0, 0] <= 1:
            out = ECM().update_transient_state(ECMInput(time=0., current=0.), ECMInput(time=1., current=0.), state, asoh)
            require(out.to_numpy().shape == (1, len(row)), 'state after a step')

    # Rejections
    wrong = case['wrong']
    if wrong != rc:
        if wrong:
            raises(lambda: ECMASOH.provide_template(has_C0=case['has_C0'], num_RC=wrong, RC=[(0.01, 100.)] * rc),
                   f'{rc} elements given for {wrong}', ValueError)
        raises(lambda: ECMTransientVector.provide_template(case['has_C0'], wrong, i_rc=np.ones(rc)),
               f'{rc} currents given for {wrong}', ValueError)

    # Changes of one element at a time
    names = list(got)
    state, alone = dict(got), read(other)
    for k, factor, inplace in case['changes']:
        name = names[k % len(names)]
        new = state[name] * factor + 0.001
        if inplace:
            obj = asoh
            *path, last = name.split('.')
            for p in path:
                obj = obj[int(p)] if p.isdigit() else getattr(obj, p)
            arr = getattr(obj, last)
            arr[:] = new
            new = new.astype(arr.dtype)
        else:
            asoh.set_value(name, new)
        state[name] = new
        for n, v in read(asoh).items():
            same(v, state[n], f'{n} after setting {name}')
        for n, v in read(other).items():
            same(v, alone[n], f'{n} of another circuit after setting {name}')

    # Capacity by either unit
    q = case['capacity']
    asoh.q_t.base_values = np.array([[q]])
    close(asoh.q_t.value, [[3600 * q]], 'capacity in A-s', 1e-12, 0)
    close(asoh.q_t.amp_hour, [[q]], 'capacity in A-hr', 1e-12, 0)
    asoh.q_t.value = 7200 * q if case['as list'] else np.array([[7200 * q]])
    close(asoh.q_t.base_values, [[2 * q]], 'capacity set in A-s', 1e-12, 0)
    close(asoh.get_parameters(['q_t.base_values']), [[2 * q]], 'capacity set in A-s, by its name', 1e-12, 0)
    s = case['seconds']
    asoh.q_t.value = s if case['as list'] else np.array([[s]])
    close(asoh.q_t.value, [[s]], 'capacity set in A-s and read back', 1e-12, 0)
    close(asoh.q_t.amp_hour, [[s / 3600]], 'capacity set in A-s, in A-hr', 1e-12, 0)
    asoh.set_value('q_t.base_values', 3 * q)
    close(asoh.q_t.value, [[10800 * q]], 'capacity in A-s, set by name', 1e-12, 0)
    same(read(other)['q_t.base_values'], alone['q_t.base_values'], 'capacity of another circuit')
    note(f'{rc} RC', *case['options'], 'shared arrays' if case['share'] and 'RC' in case['options'] and rc else 'own arrays',
         *['template state'] * bool(case['transient']), nontrivial=rc > 1 and len(case['options']) > 1)


@st.composite
def defaults(draw):
    return {'factor': draw(gen.num(0.1, 3.)), 'which': draw(st.sampled_from(['base_values', 'gamma'])), 'inplace': draw(st.booleans()),
            'q': draw(gen.lognum(0.1, 100.)), 'many': draw(st.integers(2, 4))}


def check_defaults(case, note):
    """Circuits which were not made by the template, and use defaults"""
    def make():
        return ECMASOH(q_t=MaxTheoreticalCapacity(base_values=case['q']), r0=Resistance(base_values=0.01),
                       ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.]), ocv_ent=EntropicOCV(base_values=0.)))
    cells = [make() for _ in range(case['many'])]
    before = [read(c) for c in cells]
    close(before[0]['ce'], [1.], 'coulombic efficiency which was not given', 0, 0)
    require(cells[0].c0 is None and len(cells[0].rc_elements) == 0, 'elements which were not given')
    close(before[0]['r0.temperature_dependence_factor'], [0.], 'temperature dependence which was not given', 0, 0)
    h0 = cells[0].h0
    new = getattr(h0, case['which']) * case['factor'] + 0.25
    if case['inplace']:
        getattr(h0, case['which'])[:] = new
    else:
        setattr(h0, case['which'], new)
    for cell, exp in zip(cells[1:], before[1:]):
        for n, v in read(cell).items():
            same(v, exp[n], f'{n} of another circuit')
    for n, v in read(make()).items():
        same(v, before[0][n], f'{n} of a new circuit')
    close(read(cells[0])[f'h0.{case["which"]}'], new[0], 'what was set', 1e-12, 0)
    note(case['which'], nontrivial=True)


@st.composite
def batches(draw):
    n = draw(st.integers(1, 5))
    case = {'qt': [draw(gen.lognum(0.05, 200.)) for _ in range(n)], 'column': draw(st.booleans()), 'num_RC': draw(st.integers(0, 2)),
            'has_C0': draw(st.sampled_from([True, True, False])), 'options': {}}
    options = {'R0': gen.lognum(1e-3, 0.5), 'C0': gen.lognum(100., 1e6), 'H0': gen.num(0., 0.2)}
    for name, elem in options.items():
        how = draw(st.sampled_from(['default', 'default', 'one', 'each']))
        if how != 'default':
            case['options'][name] = [[draw(elem)] for _ in range(n if how == 'each' else 1)]
    return case


def check_batches(case, note):
    """Templates of several cells, against those of each alone"""
    qt = np.array(case['qt'])[:, None] if case['column'] else np.array(case['qt'])
    args = {k: np.array(v) for k, v in case['options'].items()}
    shape = {'has_C0': case['has_C0'], 'num_RC': case['num_RC']}
    cells = ECMASOH.provide_template(qt=qt, **shape, **args)
    require(cells.batch_size == len(case['qt']), f'batch size {cells.batch_size} for {len(case["qt"])} capacities')
    same(qt.ravel(), np.array(case['qt']), 'capacities which were given')
    for k, q in enumerate(case['qt']):
        mine = {n: v[[k % len(v)]] for n, v in args.items()}
        alone = ECMASOH.provide_template(qt=q, **shape, **mine)
        require(alone.all_names == cells.all_names, 'names')
        for n in alone.all_names:
            obj = cells
            for p in n.split('.'):
                obj = obj[int(p)] if p.isdigit() else getattr(obj, p)
            require(obj.ndim == 2 and len(obj) in (1, len(case['qt'])), f'{n}: shape {obj.shape}')
            close(obj[k % len(obj)], alone.get_parameters([n])[0], f'{n} of member {k}', 1e-12, 0)
    note(f'{len(case["qt"])} cells', 'column' if case['column'] else 'row', 'C0' if case['has_C0'] else 'no C0',
         nontrivial=len(case['qt']) > 1 and case['has_C0'])


CLAUSES = [Clause('batches', batches, check_batches, 'several cells with a series capacitor', 200, 5000),
           Clause('template', cases, check, 'several RC elements and options', 800, 30000),
           Clause('defaults', defaults, check_defaults, 'always', 100, 2000)]
ASSUMPTIONS = ['Values which the template does not mention (temperature dependence) are not checked']
