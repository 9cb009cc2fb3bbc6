"""Trees of health parameters, and a flat reference model of them (an ordered map from names to values)"""
import json
from typing import Optional

import numpy as np
from hypothesis import strategies as st
from pydantic import Field

from moirae.models.base import HealthVariable, ListParameter, ScalarParameter

from . import ecmref, gen
from .core import Violation, raises, require, same


class Node(HealthVariable):
    """Health variable with every type of member"""
    s: ScalarParameter = 1.
    v: ListParameter = Field(default_factory=lambda: [2., 3.])
    child: Optional['Node'] = None
    kids: tuple['Node', ...] = ()
    table: dict[str, 'Node'] = Field(default_factory=dict)
    z: ScalarParameter = -1.


Node.model_rebuild()
KEYS = ['first', 'second', 'x', '0', '12', 's', 'B']


# --- Generation
LEAF = {'w': 1, 'child': None, 'kids': [], 'table': []}


@st.composite
def trees(draw, depth=2):
    """Trees, some of which are deep within others"""
    spec = draw(bushes(depth=depth))
    if draw(st.integers(0, 5)) == 0:
        for _ in range(draw(st.integers(1, 3))):
            where, rest = draw(st.sampled_from(['child', 'kids', 'kids', 'table'])), {**LEAF, 'w': 2}
            spec = {**rest, 'child': spec} if where == 'child' else {**rest, 'kids': [LEAF] * draw(st.integers(0, 2)) + [spec, LEAF]} \
                if where == 'kids' else {**rest, 'table': [['first', LEAF], ['x', spec]]}
    return spec


@st.composite
def bushes(draw, depth=2):
    """Shape of a tree: widths of the vectors and members of each node"""
    spec = {'w': draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 11])), 'child': None, 'kids': [], 'table': []}
    if depth > 0:
        if draw(st.booleans()):
            spec['child'] = draw(bushes(depth=depth - 1))
        spec['kids'] = [draw(bushes(depth=depth - 1)) for _ in range(draw(st.sampled_from([0, 1, 2])))]
        if not spec['kids'] and draw(st.integers(0, 9)) == 0:  # More than there are digits
            spec['kids'] = [{'w': 1, 'child': None, 'kids': [], 'table': []} for _ in range(draw(st.integers(11, 13)))]
        spec['table'] = [[k, draw(bushes(depth=depth - 1))] for k in draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True))]
    return spec


def operations(kinds):
    i = st.integers(0, 60)
    one = st.tuples(st.sampled_from(kinds), i, i, st.integers(0, 9), st.booleans()).map(list)
    return st.one_of(st.lists(one, min_size=1, max_size=8), st.lists(one, min_size=6, max_size=14))


# --- Construction
class Counter:
    """Distinct values"""

    def __init__(self, start=0):
        self.n = start

    def rows(self, b, w):
        out = self.n + np.arange(b * w, dtype=float).reshape(b, w) + 0.5
        out[:, ::2] *= -1
        self.n += b * w
        return out


def build(spec, count, batch, salt=0):
    """Tree, some members of which are batched"""
    def rows(w):
        v = count.rows(batch if (count.n // 3 + salt) % 3 == 0 else 1, w)
        # Users also write 1 rather than 1., which must not make it a parameter of integers for good
        return v.astype(int) if (count.n + salt) % 4 == 0 else v.copy()
    kwargs = {'s': rows(1), 'v': rows(spec['w'])}
    if spec['child'] is not None:
        kwargs['child'] = build(spec['child'], count, batch, salt)
    kwargs['kids'] = tuple(build(k, count, batch, salt) for k in spec['kids'])
    kwargs['table'] = {k: build(t, count, batch, salt) for k, t in spec['table']}
    kwargs['z'] = rows(1)
    return Node(**kwargs)


def flatten(spec, prefix=''):
    """Names in order"""
    out = [f'{prefix}s', f'{prefix}v']
    if spec['child'] is not None:
        out += flatten(spec['child'], f'{prefix}child.')
    for i, k in enumerate(spec['kids']):
        out += flatten(k, f'{prefix}kids.{i}.')
    for k, t in spec['table']:
        out += flatten(t, f'{prefix}table.{k}.')
    return out + [f'{prefix}z']


def node_names(spec):
    """Names of the parameters of a circuit, in order of definition"""
    out = ['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ref.reference_temperature',
           'ocv.ocv_ent.base_values', 'r0.base_values', 'r0.temperature_dependence_factor']
    if spec['c0'] is not None:
        out += ['c0.base_values']
    for i in range(len(spec['rc'])):
        out += [f'rc_elements.{i}.r.base_values', f'rc_elements.{i}.r.temperature_dependence_factor',
                f'rc_elements.{i}.c.base_values']
    return out + ['h0.base_values', 'h0.gamma']


def locate(root, name):
    """Follow a dotted name by attributes. Returns every (object, attribute) marked along the path"""
    parts, obj, path = name.split('.'), root, []
    while True:
        key = parts.pop(0)
        path.append((obj, key))
        if not parts:
            return path
        obj = getattr(obj, key)
        if isinstance(obj, tuple):
            obj = obj[int(parts.pop(0))]
        elif isinstance(obj, dict):
            obj = obj[parts.pop(0)]


def chain(name):
    """Flags which must be set for a parameter to be updatable, as prefixes of its name without indices

    ``kids.0.v`` needs the flag "kids" of the root and "v" of ``kids.0``
    """
    parts, where, out = name.split('.'), '', []
    while parts:
        key = parts.pop(0)
        out.append((where, key))
        where += key + '.'
        if key in ('kids', 'table', 'rc_elements'):
            where += parts.pop(0) + '.'
    return out


class Model:
    """Ordered map of names to values, and the set of flags"""

    def __init__(self, names, values):
        self.names = list(names)
        self.values = {n: np.array(v) for n, v in values.items()}
        self.flags = set()

    def clone(self):
        out = Model(self.names, self.values)
        out.flags = set(self.flags)
        return out

    @property
    def batch(self):
        return max(v.shape[0] for v in self.values.values())

    def updatable(self):
        return [n for n in self.names if all(f in self.flags for f in chain(n))]

    def read(self, names):
        if len(names) == 0:
            return np.zeros((self.batch, 0))
        return np.concatenate([np.repeat(self.values[n], self.batch, 0) if self.values[n].shape[0] == 1
                               else self.values[n] for n in names], axis=1)

    def expanded(self, names):
        out = []
        for n in names:
            w = self.values[n].shape[1]
            out += [n] if w == 1 else [f'{n}[{j}]' for j in range(w)]
        return out


def agree(obj, model, what):
    """Require that an object holds exactly what the model does"""
    for n in model.names:
        o, key = locate(obj, n)[-1]
        same(getattr(o, key), model.values[n], f'{what}: {n}')
    require(obj.batch_size == model.batch, lambda: f'{what}: batch size is {obj.batch_size}, expected {model.batch}')


def agree_names(obj, model, what):
    found = list(obj.all_names)
    require(found == model.names, lambda: f'{what}: names are {found}, expected {model.names}')
    up = model.updatable()
    require(list(obj.updatable_names) == up, lambda: f'{what}: updatable names are {obj.updatable_names}, expected {up}')
    same(obj.get_parameters(), model.read(up), f'{what}: updatable values')
    n = sum(model.values[u].shape[1] for u in up)
    require(obj.num_updatable == n, lambda: f'{what}: {obj.num_updatable} updatable values, expected {n}')
    for k in (model.names, up):
        found = list(obj.expand_names(k))
        require(found == model.expanded(k), lambda: f'{what}: expanded names are {found}, '
                                                    f'expected {model.expanded(k)}')
    # Names of containers are expanded to those of all their members
    for k in sorted({'.'.join(x.split('.')[:1]) for x in model.names if '.' in x}):
        require(list(obj.expand_names([k])) == model.expanded([m for m in model.names if m.startswith(k + '.')]),
                lambda: f'{what}: expansion of {k} is {obj.expand_names([k])}')


def subset(names, i, j, k):
    """Pick some names in an order which is not that of definition"""
    n = len(names)
    size = 1 + k % min(n, 4)
    out = []
    for t in range(size):
        x = names[(i + t * (j + 1)) % n]
        if x not in out:
            out.append(x)
    return out


def make(case):
    """Object and model of it for a case: either a general tree or a circuit"""
    batch = case['batch']
    count = Counter(1)
    if 'tree' in case:
        obj = build(case['tree'], count, batch, case['salt'])
        names = flatten(case['tree'])
    else:
        obj = ecmref.build_asoh(case['asoh'])
        names = node_names(case['asoh'])
        count.n = 100
    values = {}
    for n in names:
        o, key = locate(obj, n)[-1]
        values[n] = getattr(o, key).copy()
    return obj, Model(names, values), count


def tree_cases(kinds, batch=st.sampled_from([1, 2, 3])):
    return st.fixed_dictionaries({'tree': trees(), 'batch': batch, 'salt': st.integers(0, 5), 'ops': operations(kinds)})


@st.composite
def circuit_cases(draw, kinds):
    batch = draw(st.sampled_from([1, 2, 3]))
    return {'asoh': draw(gen.circuit(batch)), 'batch': batch, 'ops': draw(operations(kinds))}


def forms(value, k):
    """Ways of writing the same value"""
    b, w = value.shape
    if w == 1:
        options = [value.copy(), value[:, 0].copy(), value[:, 0].tolist(), value.tolist()]
        if b == 1:
            options += [float(value[0, 0]), np.array(value[0, 0]), np.float32(value[0, 0])]
    else:
        options = [value.copy(), value.tolist()]
        if b == 1:
            options += [value[0].copy(), value[0].tolist(), tuple(value[0].tolist())]
    return options[k % len(options)]


def spoil(array):
    """Overwrite an array given to or returned by an object"""
    if isinstance(array, np.ndarray) and array.flags.writeable and array.ndim:
        array[...] = -12345.
    elif isinstance(array, list):
        array.clear()


def rejected(func, what):
    raises(func, what, ValueError, IndexError, KeyError)


__all__ = ['json', 'Violation']
