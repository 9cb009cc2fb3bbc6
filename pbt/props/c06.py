"""SOC- and temperature-dependent parameters"""
import numpy as np
from hypothesis import strategies as st

from moirae.models.ecm.components import Capacitance, EntropicOCV, OpenCircuitVoltage, RCComponent, ReferenceOCV
from moirae.models.ecm.components import HysteresisParameters
from moirae.models.ecm.utils import SOCInterpolatedHealth

from .. import ecmref as ref, gen
from ..core import Clause, close, require, same

socs = st.one_of(gen.num(0., 1.), gen.num(0., 1.), gen.num(-0.1, 1.15))


@st.composite
def soc_array(draw, tables):
    """SOCs of any rank: [rank, nested list]"""
    pts = [p for t in tables for p in (t['pins'] or np.linspace(0, 1, max(2, len(t['vals'][0]))).tolist())]
    elem = st.one_of(socs, st.sampled_from(pts))
    rank = draw(st.integers(0, 2))
    if rank == 0:
        return draw(elem)
    if rank == 1:
        return [draw(elem) for _ in range(draw(st.integers(1, 5)))]
    d = draw(st.integers(1, 4))
    return [[draw(elem) for _ in range(d)] for _ in range(draw(st.integers(1, 4)))]


def as_2d(soc):
    soc = np.array(soc, dtype=float)
    return soc.reshape((1, -1)) if soc.ndim < 2 else soc


def expect(func, batch, soc, temp=None):
    """Evaluate a scalar function over (batch, SOC batch, SOC points)"""
    soc = as_2d(soc)
    out = np.zeros((batch, *soc.shape))
    for b in range(batch):
        for i in range(soc.shape[0]):
            t = temp if temp is None or not isinstance(temp, list) else temp[i % len(temp)][0]
            for j in range(soc.shape[1]):
                out[b, i, j] = func(b, float(soc[i, j]), t)
    return out


def matches(actual, expected, what, exact_batch=None):
    actual = np.asarray(actual, dtype=float)
    require(actual.ndim == 3, f'{what}: result has {actual.ndim} dimensions rather than 3')
    require(actual.shape[1:] == expected.shape[1:] and actual.shape[0] in (1, expected.shape[0]),
            f'{what}: shape {actual.shape}, expected {expected.shape}')
    if exact_batch is not None:
        require(actual.shape[0] == exact_batch, f'{what}: shape {actual.shape}, expected {expected.shape}')
    defined = np.isfinite(expected)  # There is no previous value before the table nor a next one after it
    scale = float(np.max(np.abs(expected[defined]), initial=0.)) + 1e-12
    close(np.where(defined, np.broadcast_to(actual, expected.shape), 0.), np.where(defined, expected, 0.),
          what, rtol=1e-8, atol=1e-8 * scale + 1e-12)


# --- Tables
@st.composite
def table_cases(draw):
    batch = draw(gen.batches)
    t = draw(gen.interp(gen.num(-5., 5.), batch, max_points=8))
    new = [[draw(gen.num(-5., 5.)) for _ in r] for r in t['vals']]
    # Points of a table may be listed in any order
    order = list(range(len(t['vals'][0])))
    if t['pins']:
        order = draw(st.one_of(st.just(order), st.just(order[::-1]), st.permutations(order)))
    return {'table': t, 'new': new, 'order': list(order), 'soc': draw(soc_array([t])), 'soc2': draw(soc_array([t])),
            'cls': draw(st.sampled_from(['base', 'c', 'ent', 'h0'])), 'as_list': draw(st.booleans())}


def check_table(case, note):
    t = case['table']
    cls = {'base': SOCInterpolatedHealth, 'c': Capacitance, 'ent': EntropicOCV, 'h0': HysteresisParameters}[case['cls']]
    order = case.get('order') or list(range(len(t['vals'][0])))
    kwargs = ref._interp_kwargs(t)
    given = kwargs['base_values'] = np.array(t['vals'], dtype=float)[:, order]
    if t['pins']:
        kwargs['soc_pinpoints'] = np.array(t['pins'])[order]
    obj = cls(**kwargs)
    batch = len(t['vals'])
    soc = case['soc'] if case['as_list'] else np.array(case['soc'])
    before = np.array(case['soc'])
    first = obj.get_value(soc=soc)
    matches(first, expect(lambda b, s, _: ref.table(t, b, s), batch, case['soc']), 'value', batch)
    same(np.array(soc), before, 'SOC array after evaluation')
    # The same again, at other points, and with other values in the table
    matches(obj.get_value(case['soc2']), expect(lambda b, s, _: ref.table(t, b, s), batch, case['soc2']),
            'value at other SOCs', batch)
    matches(obj.get_value(soc), first, 'value when evaluated again', batch)
    same(obj.base_values, given.copy(), 'table after evaluation')
    if t['pins']:  # The caller may use what was given for something else
        kwargs['soc_pinpoints'][...] = 17.
        matches(obj.get_value(soc), first, 'value after the array of points given by the caller was changed', batch)
    obj.set_value('base_values', np.array(case['new'])[:, order])
    t2 = {**t, 'vals': case['new']}
    matches(obj.get_value(soc), expect(lambda b, s, _: ref.table(t2, b, s), batch, case['soc']),
            'value after changing the table', batch)
    # Points of the table are reproduced
    pins = t['pins'] or np.linspace(0, 1, len(t['vals'][0])).tolist()
    if len(t['vals'][0]) > 1:
        close(obj.get_value(np.array(pins))[:, 0, :], ref.arr(case['new']), 'value at the points of the table',
              rtol=1e-7, atol=1e-7)
    note(t['style'], f'rank {np.ndim(case["soc"])}', 'batched' if batch > 1 else 'single',
         'pinned' if t['pins'] else 'even', 'in order' if order == sorted(order) else 'not in order', nontrivial=len(t['vals'][0]) > 1)


# --- Temperature laws
temps = st.one_of(gen.num(-10., 60.), gen.num(-10., 60.), st.sampled_from([25., 0., 20., 40., -5.]))


@st.composite
def temp_cases(draw, kind):
    batch = draw(gen.batches)
    case = {'batch': batch}
    if kind == 'r':
        spec = draw(gen.resistance(batch))
        tables = [spec]
    elif kind == 'rc':
        spec = {'r': draw(gen.resistance(batch)), 'c': draw(gen.capacitance(batch))}
        tables = [spec['r'], spec['c']]
    else:
        spec = draw(gen.circuit(batch, num_rc=0, has_c0=False, constant=True))['ocv']
        tables = [spec['ref'], spec['ent']]
    case['spec'] = spec
    case['soc'] = draw(soc_array(tables))
    how = draw(st.sampled_from(['none', 'number', 'number', 'rows', 'rows']))
    if how == 'none':
        case['temp'] = None
    elif how == 'number':
        case['temp'] = draw(temps)
    else:
        n = as_2d(case['soc']).shape[0]
        case['temp'] = [[draw(temps)] for _ in range(n)]
    return case


def as_temp(temp):
    return np.array(temp) if isinstance(temp, list) else temp


def label(case, note):
    t = case['temp']
    note('no temperature' if t is None else 'temperature per SOC batch' if isinstance(t, list) else 'one temperature',
         f'rank {np.ndim(case["soc"])}', 'batched' if ref.batch_of(case['spec']) > 1 else 'single',
         nontrivial=t is not None)


def check_resistance(case, note):
    spec = case['spec']
    obj = ref.build_resistance(spec)
    for _ in range(2):
        out = obj.get_value(soc=np.array(case['soc']), temp=as_temp(case['temp']))
        matches(out, expect(lambda b, s, t: ref.ref_resistance(spec, b, s, t), case['batch'], case['soc'],
                            case['temp']), 'resistance')
    label(case, note)


def check_rc(case, note):
    spec = case['spec']
    obj = RCComponent(r=ref.build_resistance(spec['r']), c=Capacitance(**ref._interp_kwargs(spec['c'])))
    soc, temp = np.array(case['soc']), as_temp(case['temp'])
    exp_r = expect(lambda b, s, t: ref.ref_resistance(spec['r'], b, s, t), case['batch'], case['soc'], case['temp'])
    exp_c = expect(lambda b, s, t: ref.table(spec['c'], b, s), case['batch'], case['soc'], case['temp'])
    r, c = obj.get_value(soc=soc, temp=temp)
    matches(r, exp_r, 'resistance of RC')
    matches(c, exp_c, 'capacitance of RC')
    matches(obj.time_constant(soc=soc, temp=temp), exp_r * exp_c, 'time constant')
    label(case, note)


def check_ocv(case, note):
    spec = case['spec']
    obj = OpenCircuitVoltage(
        ocv_ref=ReferenceOCV(**ref._interp_kwargs(spec['ref']), reference_temperature=ref.scalar(spec['tref'])),
        ocv_ent=EntropicOCV(**ref._interp_kwargs(spec['ent'])))
    soc, temp = np.array(case['soc']), as_temp(case['temp'])
    exp = expect(lambda b, s, t: ref.ref_ocv(spec, b, s, t), case['batch'], case['soc'], case['temp'])
    matches(obj.get_value(soc=soc, temp=temp), exp, 'OCV')
    matches(obj(soc=soc, temp=temp), exp, 'OCV (called)')
    label(case, note)


CLAUSES = [
    Clause('table', table_cases, check_table, 'the table has more than one point', quick=1600, thorough=60000),
    Clause('resistance', lambda: temp_cases('r'), check_resistance, 'a temperature is given', 800, 30000),
    Clause('rc', lambda: temp_cases('rc'), check_rc, 'a temperature is given', 600, 30000),
    Clause('ocv', lambda: temp_cases('ocv'), check_ocv, 'a temperature is given', 800, 30000),
]
ASSUMPTIONS = ['SciPy CubicSpline and make_interp_spline (k=2), evaluated one row at a time, are the reference for the '
               'cubic and quadratic styles',
               'Points of a table are at different SOCs, in any order; SOC within [-0.1, 1.15]']
