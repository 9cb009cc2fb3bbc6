"""Cell models as a user would define them: quantities of any number and width, nested health, several outputs"""
from typing import Optional

import numpy as np
from hypothesis import strategies as st
from pydantic import Field

from moirae.models.base import (CellModel, DegradationModel, GeneralContainer, HealthVariable, InputQuantities, ListParameter,
                                OutputQuantities, ScalarParameter)

from . import gen


class Piece(HealthVariable):
    k: ListParameter = (1., 2.)
    r: ScalarParameter = 0.5


class Wellness(HealthVariable):
    size: ScalarParameter = 1.
    core: Piece = Field(default_factory=Piece)
    stack: tuple[Piece, ...] = ()
    shelf: dict[str, Piece] = Field(default_factory=dict)
    gains: ListParameter = (0.3,)


class Drive(InputQuantities):
    flow: ListParameter = ()
    ambient: Optional[ScalarParameter] = None


class Inside(GeneralContainer):
    level: ScalarParameter = 0.
    heat: Optional[ScalarParameter] = None
    modes: ListParameter = ()
    last: ScalarParameter = 0.


class Outside(OutputQuantities):
    probes: ListParameter = ()
    swell: Optional[ScalarParameter] = None


FIELDS = {'input': (Drive, ['time', 'current', 'flow', 'ambient']), 'state': (Inside, ['level', 'heat', 'modes', 'last']),
          'output': (Outside, ['terminal_voltage', 'probes', 'swell'])}


# --- Specifications: widths of quantities (None: absent), keys of the dictionary, values by name
def health_layout(spec):
    """Names of parameters and their widths, in order"""
    out = [('size', 1)]
    for where, w in [('core', spec['core'])] + [(f'stack.{i}', w) for i, w in enumerate(spec['stack'])] + \
            [(f'shelf.{k}', w) for k, w in spec['shelf']]:
        out += [(f'{where}.k', w), (f'{where}.r', 1)]
    return out + [('gains', spec['gains'])]


def widths(spec, kind):
    return [(n, spec[kind].get(n, 1)) for n in FIELDS[kind][1] if spec[kind].get(n, 1) is not None]


def size(spec, kind):
    return sum(w for _, w in widths(spec, kind))


def names(layout):
    return [x for n, w in layout for x in ([n] if w == 1 else [f'{n}[{i}]' for i in range(w)])]


@st.composite
def specs(draw):
    w = st.sampled_from([1, 2, 3, 1, 2])
    spec = {'core': draw(w), 'stack': draw(st.lists(w, max_size=2)),
            'shelf': [[k, draw(w)] for k in draw(st.lists(st.sampled_from(['a', 'b', '0', 'k']), max_size=2, unique=True))],
            'gains': draw(w),
            'input': {'flow': draw(st.integers(0, 3)), 'ambient': draw(st.sampled_from([None, 1]))},
            'state': {'heat': draw(st.sampled_from([None, 1])), 'modes': draw(st.integers(0, 3))},
            'output': {'probes': draw(st.integers(0, 3)), 'swell': draw(st.sampled_from([None, 1]))}}
    if draw(st.integers(0, 5)) == 0:  # More values than digits
        kind, name = draw(st.sampled_from([('state', 'modes'), ('input', 'flow'), ('output', 'probes')]))
        spec[kind][name] = draw(st.integers(10, 12))
    for kind in ['state', 'output']:  # Quantities may depend on few of the others
        for n, _ in widths(spec, kind):
            if draw(st.integers(0, 3)) == 0:
                spec.setdefault('needs', {})[n] = draw(st.sampled_from(['', 'state', 'health']))
    return spec


def needs(spec, name):
    return spec.get('needs', {}).get(name, 'state health')


def mask(spec, kind, what):
    """Whether values depend on states or health (all depend on inputs)"""
    return np.array([float(what in needs(spec, n)) for n, w in widths(spec, kind) for _ in range(w)])


# --- Objects
def whole(x):
    """Write 1 rather than 1., as users do, if all values allow for it"""
    x = np.array(x)
    return x.astype(int) if np.all(x == np.round(x)) else x


def build_health(rows, spec):
    """rows: values of all parameters, one or more rows each, by name"""
    rows = {k: whole(v) for k, v in rows.items()}

    def piece(where):
        return Piece(k=rows[f'{where}.k'].copy(), r=rows[f'{where}.r'].copy())
    return Wellness(size=rows['size'].copy(), core=piece('core'), stack=tuple(piece(f'stack.{i}') for i in range(len(spec['stack']))),
                    shelf={k: piece(f'shelf.{k}') for k, _ in spec['shelf']}, gains=rows['gains'].copy())


def build(kind, rows, spec):
    """Containers from a matrix of all values"""
    rows = np.atleast_2d(np.array(rows, dtype=float))
    out, k = {}, 0
    for n, w in widths(spec, kind):
        out[n] = whole(rows[:, k:k + w])
        k += w
    return FIELDS[kind][0](**out)


def unpack(obj, layout):
    """Values of an object, read attribute by attribute, as a matrix"""
    out = []
    for n, w in layout:
        x = obj
        for key in n.split('.'):
            x = x[int(key)] if isinstance(x, tuple) else x[key] if isinstance(x, dict) else getattr(x, key)
        assert x.ndim == 2 and x.shape[1] == w, (n, w, x.shape)
        out.append(x)
    big = max([x.shape[0] for x in out])
    return np.concatenate([np.repeat(x, big, 0) if len(x) == 1 else x for x in out], axis=1)


def weights(n, m, shift):
    i, j = np.meshgrid(np.arange(n), np.arange(m), indexing='ij')
    return np.sin(1.3 + 2.9 * i + 5.3 * j + 1.7 * i * j + shift)


class Physics:
    """What the model computes, for vectors"""

    def __init__(self, spec):
        n, p, u, m = size(spec, 'state'), sum(w for _, w in health_layout(spec)), size(spec, 'input'), size(spec, 'output')
        self.f, self.fp, self.fu = weights(n, n, 0.) / n, weights(n, p, 1.) / p, weights(n, u, 2.)
        self.g, self.gp, self.gu = weights(m, n, 3.), weights(m, p, 4.), weights(m, u, 5.) / u
        self.state, self.output = [[mask(spec, kind, what) for what in ['state', 'health']] for kind in ['state', 'output']]

    def advance(self, x, p, u0, u1):
        du = 0.3 * u0 + 0.7 * u1
        state, health = self.state
        return state * (0.9 * x + self.f @ np.tanh(x)) + 0.5 * np.tanh(health * (self.fp @ p) + self.fu @ du / len(du)) \
            + 0.05 * (u1[0] - u0[0])

    def observe(self, x, p, u1):
        state, health = self.output
        return state * (self.g @ x) + health * 0.5 * np.tanh(self.gp @ p) * (1 + 0.2 * state * np.tanh(x[0])) + self.gu @ u1

    @staticmethod
    def wear(p, x, y, u1):
        return p * (1 + 0.02 * np.tanh(x.sum() + 0.5 * y[0] + 0.2 * u1.sum()))


def together(*mats):
    """Rows of several matrices for each member of a batch"""
    big = max(len(m) for m in mats)
    return [[m[b % len(m)] for m in mats] for b in range(big)]


class Model(CellModel):
    def __init__(self, spec):
        self.spec, self.physics = spec, Physics(spec)

    def read(self, obj, kind):
        return unpack(obj, health_layout(self.spec) if kind == 'health' else widths(self.spec, kind))

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        rows = together(self.read(transient_state, 'state'), self.read(asoh, 'health'), self.read(previous_inputs, 'input'),
                        self.read(new_inputs, 'input'))
        return self.made('state', [self.physics.advance(*r) for r in rows], transient_state, asoh, previous_inputs, new_inputs)

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        rows = together(self.read(transient_state, 'state'), self.read(asoh, 'health'), self.read(new_inputs, 'input'))
        return self.made('output', [self.physics.observe(*r) for r in rows], transient_state, asoh, new_inputs)

    def made(self, kind, rows, state, health, *inputs):
        """Only values which depend on something batched are batched"""
        out = build(kind, rows, self.spec)
        for n, _ in widths(self.spec, kind):
            used = list(inputs) + [x for k, x in [('state', state), ('health', health)] if k in needs(self.spec, n)]
            if all(x.batch_size == 1 for x in used):
                setattr(out, n, getattr(out, n)[:1].copy())
        return out


class Wear(DegradationModel):
    def __init__(self, model):
        self.model = model

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        read = self.model.read
        rows = together(read(previous_asoh, 'health'), read(new_transients, 'state'), read(new_measurements, 'output'),
                        read(new_inputs, 'input'))
        new = np.array([Physics.wear(*r) for r in rows])
        out, k = previous_asoh.model_copy(deep=True), 0
        for n, w in health_layout(self.model.spec):
            out.set_value(n, new[:, k:k + w])
            k += w
        return out


@st.composite
def vectors(draw, n, lo=-2., hi=2., whole=False):
    if whole:
        return [float(draw(st.integers(int(lo), int(hi)))) for _ in range(n)]
    return [draw(gen.num(lo, hi, 3)) for _ in range(n)]
