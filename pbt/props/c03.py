"""Containers and their vector form"""
from typing import Optional

import numpy as np
from hypothesis import strategies as st

from moirae.models.base import GeneralContainer, InputQuantities, ListParameter, OutputQuantities, ScalarParameter
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector

from .. import hvtree as hv, thevenin_stub  # noqa: F401
from ..core import Clause, require, same

from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninTransient


class Mixed(GeneralContainer):
    p: Optional[ScalarParameter] = None
    a: ScalarParameter = 0.
    u: Optional[ListParameter] = None
    v: ListParameter = ()
    b: ScalarParameter = 1.
    w: ListParameter = (1., 2.)
    q: Optional[ScalarParameter] = None


# Fields in order of definition: name, whether it is a vector, whether it is optional
CLASSES = {
    'Mixed': (Mixed, [('p', 0, 1), ('a', 0, 0), ('u', 1, 1), ('v', 1, 0), ('b', 0, 0), ('w', 1, 0), ('q', 0, 1)]),
    'ECMInput': (ECMInput, [('time', 0, 0), ('current', 0, 0), ('temperature', 0, 1)]),
    'ECMTransientVector': (ECMTransientVector, [('soc', 0, 0), ('q0', 0, 1), ('i_rc', 1, 0), ('hyst', 0, 0)]),
    'ECMMeasurement': (ECMMeasurement, [('terminal_voltage', 0, 0)]),
    'OutputQuantities': (OutputQuantities, [('terminal_voltage', 0, 0)]),
    'InputQuantities': (InputQuantities, [('time', 0, 0), ('current', 0, 0)]),
    'TheveninInput': (TheveninInput, [('time', 0, 0), ('current', 0, 0), ('t_inf', 0, 0)]),
    'TheveninTransient': (TheveninTransient, [('soc', 0, 0), ('temp', 0, 0), ('eta', 1, 0)]),
}
OPS = ['from_numpy', 'from_numpy', 'make_copy', 'round trip', 'set', 'deep copy']


@st.composite
def cases(draw):
    cls = draw(st.sampled_from([*CLASSES, 'Mixed', 'Mixed', 'ECMTransientVector']))
    batch = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 11]))
    fields = []
    for _, vector, optional in CLASSES[cls][1]:
        present = not optional or draw(st.booleans())
        # Width and whether it is batched
        width = draw(st.sampled_from([0, 1, 2, 3, 4, 2, 3, 4, 12])) if vector else 1
        fields.append([width, draw(st.booleans())] if present else None)
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.booleans(), st.integers(0, 9)).map(list), max_size=6))
    return {'cls': cls, 'batch': batch, 'fields': fields, 'ops': ops, 'ints': draw(st.sampled_from([0, 0, 1, 2]))}


def layout(values):
    out = []
    for n, v in values.items():
        if v is not None:
            out += [n] if v.shape[1] == 1 else [f'{n}[{j}]' for j in range(v.shape[1])]
    return out


def agree(obj, values, what):
    """The object holds exactly the values, and everything describing the layout does so alike"""
    present = {n: v for n, v in values.items() if v is not None}
    batch = max(v.shape[0] for v in present.values())
    for n, v in values.items():
        if v is None:
            require(getattr(obj, n) is None, f'{what}: absent field {n} has a value')
            require(obj.length_field(n) == 0, f'{what}: absent field {n} has a length')
        else:
            same(getattr(obj, n), v, f'{what}: {n}')
            require(obj.length_field(n) == v.shape[1], f'{what}: length of {n} is {obj.length_field(n)}')
    require(obj.batch_size == batch, f'{what}: batch size is {obj.batch_size}, expected {batch}')
    require(tuple(obj.all_fields) == tuple(values), f'{what}: fields are {obj.all_fields}')
    require(list(obj.all_names) == layout(values), f'{what}: names are {obj.all_names}, expected {layout(values)}')
    for n in values:
        require(list(obj.expand_names([n])) == layout({n: values[n]}), f'{what}: {n} is expanded to '
                                                                       f'{obj.expand_names([n])}')
    vec = obj.to_numpy()
    same(vec, np.concatenate([np.repeat(v, batch, 0) if v.shape[0] == 1 else v for v in present.values()], axis=1),
         f'{what}: vector form')
    require(len(obj) == vec.shape[1] == len(obj.all_names), f'{what}: length is {len(obj)}, vector {vec.shape}, '
                                                            f'{len(obj.all_names)} names')
    # The vector is the caller's
    hv.spoil(vec)
    for n, v in present.items():
        same(getattr(obj, n), v, f'{what}: {n} after its vector form was changed')


def check(case, note):
    cls, fields = CLASSES[case['cls']]
    count = hv.Counter(1)
    values, given = {}, {}
    for (n, vector, _), shape in zip(fields, case['fields']):
        if shape is None:
            values[n] = None
            continue
        values[n] = count.rows(case['batch'] if shape[1] else 1, shape[0])
        if case.get('ints') and (count.n + case['ints']) % 2:  # Users also write 1 rather than 1.
            values[n] = values[n].astype(int)
        given[n] = values[n].copy()
    obj = cls(**given)
    for v in given.values():
        hv.spoil(v)
    agree(obj, values, 'after creation')

    others = []
    for t, (kind, flag, k) in enumerate(case['ops']):
        what = f'operation {t} ({kind})'
        width = sum(v.shape[1] for v in values.values() if v is not None)
        rows = case['batch'] if flag else 1
        if kind in ('from_numpy', 'make_copy', 'round trip'):
            if kind == 'round trip':
                vec = obj.to_numpy()
            else:
                vec = count.rows(rows, width)
            new = {}
            pos = 0
            for n, v in values.items():
                new[n] = v
                if v is not None:
                    new[n] = vec[:, pos:pos + v.shape[1]].copy()
                    pos += v.shape[1]
            arg = vec[0] if len(vec) == 1 and k % 2 else vec
            if kind == 'make_copy' or (kind == 'round trip' and k % 3 == 0):
                others.append((obj, dict(values)))
                obj = obj.make_copy(arg)
            else:
                obj.from_numpy(arg)
            values = new
            agree(obj, values, what)
            require(not any(np.shares_memory(getattr(obj, n), vec) for n, v in values.items() if v is not None),
                    f'{what}: memory is shared with the vector')
            hv.spoil(vec)
        elif kind == 'set':
            names = [n for n, v in values.items() if v is not None]
            n = names[k % len(names)]
            # In place, which must not affect the copies
            values[n] = count.rows(*values[n].shape).astype(values[n].dtype)
            getattr(obj, n)[...] = values[n]
        elif kind == 'deep copy':
            others.append((obj, dict(values)))
            obj = obj.model_copy(deep=True)
        agree(obj, values, what)
        for o, v in others:
            agree(o, v, f'original of a copy after {what}')
    kinds = {k for k, _, _ in case['ops']}
    rowsets = {v.shape[0] for v in values.values() if v is not None}
    note(case['cls'], f'batch of {max(rowsets)}', *kinds,
         nontrivial=len(layout(values)) > 1 and bool(kinds & {'from_numpy', 'make_copy', 'round trip'}))


CLAUSES = [Clause('containers', cases, check, 'more than one value, converted at least once', 3000, 100000)]
ASSUMPTIONS = ['Vectors have the length of the container; batch sizes of its fields are consistent']
