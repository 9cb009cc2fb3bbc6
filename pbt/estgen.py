"""Estimation problems: a cell, what is uncertain about it, and what happens to it; with a scalar model to compare to"""
import copy

import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.conversions import IdentityConversionOperator, LinearConversionOperator

from . import ecmref as ref, gen

SMOOTH = {'nearest': 'linear', 'nearest-up': 'slinear', 'previous': 'linear', 'next': 'slinear', 'zero': 'linear'}


# --- Access to a specification by the dotted names of health parameters
def health_names(spec):
    """Names of all parameters of a circuit"""
    rc = [f'rc_elements.{i}.{x}' for i in range(len(spec['rc'])) for x in
          ('r.base_values', 'r.temperature_dependence_factor', 'c.base_values')]
    return (['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ref.reference_temperature',
             'ocv.ocv_ent.base_values', 'r0.base_values', 'r0.temperature_dependence_factor'] +
            (['c0.base_values'] if spec['c0'] is not None else []) + rc + ['h0.base_values', 'h0.gamma'])


def locate(spec, name):
    """Part of the specification and key at which the rows of a parameter are"""
    parts = name.split('.')
    if name == 'q_t.base_values':
        return spec, 'q_t'
    if name == 'ce':
        return spec, 'ce'
    if parts[0] == 'ocv':
        sub = spec['ocv']
        if parts[2] == 'reference_temperature':
            return sub, 'tref'
        return (sub['ref'], 'vals') if parts[1] == 'ocv_ref' else (sub['ent'], 'vals')
    sub = spec['rc'][int(parts[1])][parts[2]] if parts[0] == 'rc_elements' else spec[parts[0]]
    return sub, {'base_values': 'vals', 'temperature_dependence_factor': 'tdep', 'gamma': 'gamma'}[parts[-1]]


def read(spec, names):
    """Values of parameters, side by side"""
    out = []
    for n in names:
        sub, key = locate(spec, n)
        out.extend(sub[key][0])
    return out


def write(spec, names, values):
    """A copy of the specification with other values"""
    out, k = copy.deepcopy(spec), 0
    for n in names:
        sub, key = locate(out, n)
        width = len(sub[key][0])
        sub[key] = [[float(x) for x in values[k:k + width]]]
        k += width
    assert k == len(values)
    return out


def expanded(spec, names):
    """Names of each value"""
    out = []
    for n in names:
        sub, key = locate(spec, n)
        width = len(sub[key][0])
        out.extend([f'{n}[{i}]' for i in range(width)] if width > 1 else [n])
    return tuple(out)


def state_names(spec):
    n = len(spec['rc'])
    return (('soc',) + (('q0',) if spec['c0'] is not None else ()) + (('i_rc',) if n == 1 else tuple(f'i_rc[{i}]' for i in range(n))) + ('hyst',))


def state_vector(state):
    return state['soc'][0] + (state['q0'][0] if state['q0'] is not None else []) + state['i_rc'][0] + state['hyst'][0]


def state_spec(vec, template):
    vec = [float(x) for x in vec]
    k = 1
    q0 = None
    if template['q0'] is not None:
        q0, k = [[vec[1]]], 2
    return {'soc': [[vec[0]]], 'q0': q0, 'i_rc': [vec[k:-1]], 'hyst': [[vec[-1]]]}


# --- Generation
def some(draw, rows, states):
    """Points which differ only in some of their coordinates, or are repeated"""
    width, what = len(rows[0]), draw(st.sampled_from(['all'] * 4 + ['states', 'others', 'one', 'none']))
    one = draw(st.integers(0, width - 1)) if what == 'one' else None
    keep = [{'all': True, 'states': k < states, 'others': k >= states, 'one': k == one, 'none': False}[what] for k in range(width)]
    return [[x if k else 0. for x, k in zip(row, keep)] for row in rows]


def smooth(spec):
    """Use only tables which are continuous"""
    for k, v in spec.items():
        if k == 'style':
            spec[k] = SMOOTH.get(v, v)
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, dict):
                smooth(x)
    return spec


def spread(name, value):
    """A typical uncertainty of a parameter"""
    if name == 'ocv.ocv_ref.reference_temperature':
        return 1.
    if name == 'ocv.ocv_ref.base_values':
        return 0.02
    if name == 'ce':
        return 0.02
    return abs(value) * 0.05 if value != 0 else 1e-3


@st.composite
def covariance(draw, sd, lo=0.3, hi=1.):
    """A well-conditioned covariance with about the given deviations"""
    n = len(sd)
    sd = [x * draw(gen.num(lo, hi, 3)) for x in sd]
    root = np.eye(n)
    if n > 1 and draw(st.booleans()):
        for i in range(1, n):
            for j in range(i):
                root[i, j] = draw(gen.num(-0.4, 0.4, 3))
    root = np.diag(sd) @ root
    return (root @ root.T).tolist()


@st.composite
def problems(draw, min_steps=1, max_steps=4, max_names=3, min_names=1, budget=0.1, tuning=None, split=False, sigma=1.,
             max_rc=2, rest=True, repeat=st.just(1), constant=None, late=False):
    spec = smooth(draw(gen.circuit(1, max_rc=max_rc, constant=constant)))
    names = health_names(spec)
    ok = [n for n in names if n != 'h0.gamma' or spec['h0']['gamma'][0][0] > 1]
    if max_names == 3 and draw(st.integers(0, 7)) == 0:
        max_names = 6
    chosen = draw(st.lists(st.sampled_from(ok), min_size=min_names, max_size=max_names, unique=True))
    state = draw(gen.transient(len(spec['rc']), spec['c0'] is not None, 1, soc=(0.35, 0.65)))
    drive = gen.tile(draw(gen.drive(spec['q_t'], min_steps, max_steps, budget=budget, rest=rest, late=late)), draw(repeat))
    sd_state = [0.02] + ([20.] if spec['c0'] is not None else []) + [0.2] * len(spec['rc']) + [0.01]
    sd_health = []
    for n in chosen:
        sd_health += [spread(n, v) for v in read(spec, [n])]
    sd_state, sd_health = [sigma * x for x in sd_state], [sigma * x for x in sd_health]
    out = {'asoh': spec, 'state': state, 'drive': drive, 'names': chosen, 'behavior': draw(gen.behaviors),
           'cov': {'transient': draw(covariance(sd_state)), 'asoh': draw(covariance(sd_health))},
           'q': {'transient': draw(covariance([0.2 * x for x in sd_state])),
                 'asoh': draw(covariance([0.2 * x for x in sd_health]))},
           'r': [[draw(st.sampled_from([1e-6, 1e-5, 1e-4, 4e-4]))]],
           'also': draw(st.lists(st.sampled_from(names), max_size=2)),
           'dv': [draw(gen.num(-0.02, 0.02)) for _ in drive[1:8]]}
    out['dv'] = [out['dv'][k % 7] for k in range(len(drive) - 1)]
    tune = TUNING if tuning is None else tuning
    out['uncertain'] = draw(st.integers(0, 3)) == 0
    out['tuning'] = {'transient': draw(tune), 'asoh': draw(tune)} if split else draw(tune)
    return out


TUNING = st.fixed_dictionaries({
    'alpha': st.one_of(st.none(), st.just(1.), gen.num(0.1, 1., 3)),
    'beta': st.one_of(st.none(), gen.num(0., 5., 3)),
    'kappa': st.one_of(st.none(), st.just('automatic'), gen.num(0., 3., 3))})


def uncertain(case, inputs):
    """Covariance of the first inputs, which estimates do not depend on"""
    n = inputs.to_numpy().shape[1]
    return {} if not case.get('uncertain') else {'inputs_uncertainty': 0.1 * np.eye(n) + 0.02 * np.arange(n)[:, None] * np.arange(n)}


def filter_args(tuning):
    return {f'{k}_param': v for k, v in tuning.items() if v is not None}


def full_tuning(tuning):
    d = {'alpha': 1., 'beta': 2., 'kappa': 0.}
    return {k: d[k] if v is None else v for k, v in tuning.items()}


@st.composite
def diagonal(draw, n, like=None):
    """An elementwise conversion to model coordinates: factors and offsets"""
    mult = [draw(gen.lognum(0.05, 20., 3)) * draw(st.sampled_from([1, 1, -1])) * (1. if like is None else like[i])
            for i in range(n)]
    add = [draw(gen.num(-2., 2., 3)) * abs(mult[i]) for i in range(n)] if draw(st.booleans()) else None
    return {'mult': mult, 'add': add}


@st.composite
def triangular(draw, n, like):
    """An affine conversion such that each coordinate of the model involves only itself and coordinates before"""
    out = draw(diagonal(n, like))
    d = out['mult']
    if max(map(abs, d)) > 1e5 * min(map(abs, d)):
        return out  # The inverse of such a matrix would not be accurate
    # samples @ multi: columns are coordinates of the model
    out['mult'] = [[d[j] * (1. if i == j else draw(gen.num(-0.4, 0.4, 2)) if i < j else 0.) for j in range(n)]
                   for i in range(n)]
    for i in range(n):  # Keep the direction of each, so that factors of covariances correspond
        if d[i] < 0:
            out['mult'] = [[abs(x) if a == i and b == i else x for b, x in enumerate(row)]
                           for a, row in enumerate(out['mult'])]
    return out


def operator(spec):
    if spec is None:
        return IdentityConversionOperator()
    kwargs = {'multiplicative_array': np.array(spec['mult'])}
    if spec['add'] is not None:
        kwargs['additive_array'] = np.array(spec['add'])
    return LinearConversionOperator(**kwargs)


def to_model(spec, x):
    """Coordinates of the model of points of the filter"""
    x = np.asarray(x, dtype=float)
    if spec is None:
        return x
    m = np.array(spec['mult'], dtype=float)
    m = np.diag(m) if m.ndim == 1 else m * np.eye(x.shape[-1]) if m.ndim == 0 else m
    return x @ m + (0. if spec['add'] is None else np.array(spec['add']))


def to_filter(spec, x):
    x = np.asarray(x, dtype=float)
    if spec is None:
        return x
    m = np.array(spec['mult'], dtype=float)
    m = np.diag(m) if m.ndim == 1 else m * np.eye(x.shape[-1]) if m.ndim == 0 else m
    return np.linalg.solve(m.T, (x - (0. if spec['add'] is None else np.array(spec['add']))).T).T


# --- Objects and functions of a problem
class Problem:
    def __init__(self, case, mark=False):
        self.case = case
        self.asoh, self.state = ref.build_asoh(case['asoh']), ref.build_transient(case['state'])
        self.inputs = [ref.build_input(x) for x in case['drive']]
        self.model = ref.ECM(case['behavior'])
        self.names = list(case['names'])
        for n in self.names + ([] if mark else case.get('also', [])):
            self.asoh.mark_updatable(n)
        if mark:  # Estimate all those marked, in the order of the object
            self.names = [n for n in health_names(case['asoh']) if n in self.names]
        order = []
        start = {}
        for n in case['names']:
            w = len(read(case['asoh'], [n]))
            start[n] = (len(order), len(order) + w)
            order += list(range(w))
        self.permutation = [k for n in self.names for k in range(*start[n])]
        self.x0 = np.array(state_vector(case['state']))
        self.p0 = np.array(read(case['asoh'], self.names))
        self.num_states = len(self.x0)
        p = self.permutation
        self.cov = {'transient': np.array(case['cov']['transient']), 'asoh': np.array(case['cov']['asoh']).reshape(len(p), len(p))[np.ix_(p, p)]}
        self.q = {'transient': np.array(case['q']['transient']), 'asoh': np.array(case['q']['asoh']).reshape(len(p), len(p))[np.ix_(p, p)]}
        self.r = np.array(case['r'])
        self.state_names = state_names(case['asoh']) + expanded(case['asoh'], self.names)

    def advance(self, x, p, k):
        """Transient state of one cell at step k"""
        asoh = write(self.case['asoh'], self.names, p)
        new = ref.ref_update(asoh, state_spec(x, self.case['state']), self.case['drive'][k - 1], self.case['drive'][k],
                             self.case['behavior'], 0)
        return np.array([new['soc']] + ([new['q0']] if new['q0'] is not None else []) + list(new['i_rc']) + [new['hyst']])

    def voltage(self, x, p, k):
        asoh = write(self.case['asoh'], self.names, p)
        return np.array([sum(ref.ref_voltage(asoh, state_spec(x, self.case['state']), self.case['drive'][k], 0).values())])


def block(a, b):
    n, m = len(a), len(b)
    out = np.zeros((n + m, n + m))
    out[:n, :n], out[n:, n:] = a, b
    return out
