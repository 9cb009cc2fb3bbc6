"""Normalisation of values and batch sizes"""
from typing import Optional

import numpy as np
from hypothesis import strategies as st
from pydantic import Field

from moirae.models.base import GeneralContainer, HealthVariable, ListParameter, ScalarParameter
from moirae.models.ecm.components import (Capacitance, HysteresisParameters, MaxTheoreticalCapacity, RCComponent,
                                          ReferenceOCV, Resistance)
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector

from .. import ecmref, gen, hvtree as hv
from ..core import Clause, raises, require, same


class Health(HealthVariable):
    s: ScalarParameter = 0.
    v: ListParameter = 0.


class Container(GeneralContainer):
    s: ScalarParameter = 0.
    v: ListParameter = 0.
    o: Optional[ScalarParameter] = None


SCALARS = {
    'health': lambda x: Health(s=x).s,
    'container': lambda x: Container(s=x).s,
    'optional': lambda x: Container(o=x).o,
    'input current': lambda x: ECMInput(current=x).current,
    'input time': lambda x: ECMInput(time=x).time,
    'input temperature': lambda x: ECMInput(temperature=x).temperature,
    'measurement': lambda x: ECMMeasurement(terminal_voltage=x).terminal_voltage,
    'soc': lambda x: ECMTransientVector(soc=x).soc,
    'q0': lambda x: ECMTransientVector(q0=x).q0,
    'hyst': lambda x: ECMTransientVector(hyst=x).hyst,
    'capacity': lambda x: MaxTheoreticalCapacity(base_values=x).base_values,
    'temperature factor': lambda x: Resistance(base_values=1., temperature_dependence_factor=x
                                               ).temperature_dependence_factor,
    'reference temperature': lambda x: ReferenceOCV(base_values=3., reference_temperature=x).reference_temperature,
    'default': lambda x: type('Sub', (Health,), {'__annotations__': {'s': ScalarParameter},
                                                 's': Field(default=x), '__module__': __name__})().s,
    'set_value': lambda x: _set(Health(), 's', x),
}
VECTORS = {
    'health': lambda x: Health(v=x).v,
    'container': lambda x: Container(v=x).v,
    'i_rc': lambda x: ECMTransientVector(i_rc=x).i_rc,
    'resistance': lambda x: Resistance(base_values=x).base_values,
    'capacitance': lambda x: Capacitance(base_values=x).base_values,
    'hysteresis': lambda x: HysteresisParameters(base_values=x).base_values,
    'default': lambda x: type('Sub', (Health,), {'__annotations__': {'v': ListParameter},
                                                 'v': Field(default=x), '__module__': __name__})().v,
    'set_value': lambda x: _set(Health(v=[1., 2.]), 'v', x),
}


def _set(obj, name, x):
    obj.set_value(name, x)
    return getattr(obj, name)


value = st.one_of(gen.num(-10., 10.), st.integers(-5, 5), gen.lognum(1e-9, 1e9), st.just(0.))


@st.composite
def value_cases(draw):
    scalar = draw(st.booleans())
    rows = draw(st.integers(1, 5))
    width = 1 if scalar else draw(st.integers(1, 5))
    return {'scalar': scalar, 'where': draw(st.sampled_from(sorted(SCALARS if scalar else VECTORS))),
            'values': [[draw(value) for _ in range(width)] for _ in range(rows)], 'form': draw(st.integers(0, 12))}


def check_values(case, note):
    vals, k = case['values'], case['form']
    b, w = len(vals), len(vals[0])
    expected = np.array(vals, dtype=float)
    flat = [r[0] for r in vals]
    if case['scalar']:
        forms = [vals, np.array(vals), flat, np.array(flat), tuple(flat), np.array(flat, dtype=float)]
        if b == 1:
            forms += [flat[0], float(flat[0]), np.float64(flat[0]), np.array(flat[0])] * 2
        make = SCALARS[case['where']]
    else:
        forms = [vals, np.array(vals), tuple(map(tuple, vals)), np.array(vals, dtype=float), np.array(vals, order='F')]
        if b == 1:
            forms += [vals[0], tuple(vals[0]), np.array(vals[0])] * 2
            if w == 1:
                forms += [vals[0][0], float(vals[0][0]), np.array(vals[0][0])] * 2
        if case['where'] == 'set_value' and w == 1:
            return note('set_value of one value')  # Not specified for vectors which become scalars
        make = VECTORS[case['where']]
    given = forms[k % len(forms)]
    stored = make(given)
    require(isinstance(stored, np.ndarray) and stored.ndim == 2, f'stored as {stored!r}')
    same(stored, expected, f'{case["where"]} given as {type(given).__name__}')
    require(not (isinstance(given, np.ndarray) and np.shares_memory(stored, given)), 'memory is shared with the caller')
    note('scalar' if case['scalar'] else 'vector', case['where'], f'{b} rows', f'{w} wide',
         nontrivial=b > 1 or w > 1)


@st.composite
def bad_cases(draw):
    dims = draw(st.lists(st.integers(2, 3), min_size=2, max_size=3))
    for _ in range(draw(st.integers(0, 1))):
        dims.insert(draw(st.integers(0, len(dims))), 1)
    return {'where': draw(st.sampled_from(sorted(set(SCALARS)))), 'shape': dims, 'list': draw(st.booleans())}


def check_bad(case, note):
    x = np.arange(np.prod(case['shape']), dtype=float).reshape(case['shape'])
    raises(lambda: SCALARS[case['where']](x.tolist() if case['list'] else x),
           f'an array of shape {case["shape"]} as a scalar', ValueError)
    note(case['where'], nontrivial=True)


# --- Batch sizes of whole objects
@st.composite
def batch_cases(draw):
    """Number of rows of each leaf of a tree (by position), of a circuit or of a container"""
    kind = draw(st.sampled_from(['tree', 'tree', 'circuit', 'transient', 'transient', 'input', 'container', 'container']))
    big = draw(st.sampled_from([2, 3, 4, 5, 2, 6]))
    other = draw(st.sampled_from([None, None, 2, 3, 4, 5, 2 * big, 3 * big]))
    case = {'kind': kind, 'big': big, 'other': other, 'mask': draw(st.integers(0, 2 ** 16 - 1)),
            'where': draw(st.integers(0, 15))}
    if kind == 'tree':
        case['tree'] = draw(hv.trees())
    elif kind == 'circuit':
        case['asoh'] = draw(gen.circuit(1))
    elif kind == 'transient':
        case['state'] = draw(gen.transient(draw(st.integers(1, 3)), draw(st.booleans()), 1))
    return case


def _leaves(case):
    """(name, width) of every leaf, and a builder which takes arrays for each"""
    if case['kind'] == 'tree':
        def build(vals, spec=case['tree'], prefix=''):
            kwargs = {'s': vals[f'{prefix}s'], 'v': vals[f'{prefix}v'], 'z': vals[f'{prefix}z']}
            if spec['child'] is not None:
                kwargs['child'] = build(vals, spec['child'], f'{prefix}child.')
            kwargs['kids'] = tuple(build(vals, k, f'{prefix}kids.{i}.') for i, k in enumerate(spec['kids']))
            kwargs['table'] = {k: build(vals, t, f'{prefix}table.{k}.') for k, t in spec['table']}
            return hv.Node(**kwargs)

        def widths(spec, prefix=''):
            out = {f'{prefix}s': 1, f'{prefix}v': spec['w']}
            if spec['child'] is not None:
                out.update(widths(spec['child'], f'{prefix}child.'))
            for i, k in enumerate(spec['kids']):
                out.update(widths(k, f'{prefix}kids.{i}.'))
            for k, t in spec['table']:
                out.update(widths(t, f'{prefix}table.{k}.'))
            return {**out, f'{prefix}z': 1}
        return widths(case['tree']), build
    if case['kind'] == 'circuit':
        # Values of one row are written by name, as objects check themselves when they are made
        def build(vals):
            obj = ecmref.build_asoh(case['asoh'])
            for n, v in vals.items():
                o, key = hv.locate(obj, n)[-1]
                setattr(o, key, v)
            return type(obj)(**{k: getattr(obj, k) for k in obj.model_fields})
        obj = ecmref.build_asoh(case['asoh'])
        return {n: getattr(*hv.locate(obj, n)[-1]).shape[1] for n in hv.node_names(case['asoh'])}, build
    if case['kind'] == 'transient':
        w = {'soc': 1, 'i_rc': len(case['state']['i_rc'][0]), 'hyst': 1}
        if case['state']['q0'] is not None:
            w['q0'] = 1
        return w, lambda vals: ECMTransientVector(**vals)
    if case['kind'] == 'input':
        return {'time': 1, 'current': 1, 'temperature': 1}, lambda vals: ECMInput(**vals)
    return {'s': 1, 'v': 3, 'o': 1}, lambda vals: Container(**vals)


def check_batch(case, note):
    widths, build = _leaves(case)
    names = list(widths)
    rows = {n: case['big'] if case['mask'] >> i % 16 & 1 else 1 for i, n in enumerate(names)}
    odd = None
    if case['other'] is not None:
        odd = names[case['where'] % len(names)]
        rows[odd] = case['other']
    sizes = {r for r in rows.values() if r > 1}
    vals = {n: np.full((rows[n], widths[n]), 0.5) + np.arange(rows[n])[:, None] for n in names}

    def whole():
        obj = build(vals)
        size = obj.batch_size
        if hasattr(obj, 'to_numpy'):
            require(obj.to_numpy().shape[0] == size, f'vector form has {obj.to_numpy().shape[0]} rows for a batch of {size}')
        return size
    if len(sizes) > 1:
        raises(lambda: build(vals).batch_size, f'batch size of members with {rows} rows', ValueError)
        if case['kind'] in ('transient', 'input', 'container'):
            raises(lambda: build(vals).to_numpy(), f'vector form of members with {rows} rows', ValueError)
        note('conflict', case['kind'], nontrivial=True)
    else:
        require(whole() == max(rows.values()), f'batch size is {whole()} for members with {rows} rows')
        note('consistent', case['kind'], nontrivial=bool(sizes))


def check_later(case, note):
    """Conflicts which are made by writing to an object are reported when its batch size is needed"""
    obj, model, count = hv.make(case)
    sizes = {v.shape[0] for v in model.values.values()} - {1}
    done = 0
    for kind, i, j, k, flag in case['ops']:
        n = model.names[i % len(model.names)]
        size = (1, 2, 3, 4, 6, 2)[k % 6]
        obj.set_value(n, count.rows(size, model.values[n].shape[1]))
        model.values[n] = np.zeros((size, model.values[n].shape[1]))
        sizes = {v.shape[0] for v in model.values.values()} - {1}
        if len(sizes) > 1:
            raises(lambda: obj.batch_size, f'batch size of members with {sizes} rows', ValueError)
            raises(lambda: obj.get_parameters(model.names), f'values of members with {sizes} rows', ValueError)
            done += 1
        else:
            require(obj.batch_size == max(sizes | {1}), f'batch size is {obj.batch_size}, members have {sizes} rows')
            require(obj.get_parameters(model.names).shape[0] == max(sizes | {1}), 'rows of the values')
    note('conflicts' if done else 'no conflicts', nontrivial=bool(done))


def check_nested(case, note):
    """Conflicts between the two halves of an RC element"""
    def make():
        return RCComponent(r=Resistance(base_values=np.ones((case['r'], case['n'])),
                                        temperature_dependence_factor=np.ones((case['t'], 1))),
                           c=Capacitance(base_values=np.ones((case['c'], case['n']))))
    sizes = {case['r'], case['t'], case['c']} - {1}
    if len(sizes) > 1:
        raises(make, f'RC element with {sizes} rows', ValueError)
    else:
        require(make().batch_size == max(sizes | {1}), 'batch size of an RC element')
    note('conflict' if len(sizes) > 1 else 'consistent', nontrivial=bool(sizes))


CLAUSES = [
    Clause('values', value_cases, check_values, 'more than one value', 2500, 100000),
    Clause('too many dimensions', bad_cases, check_bad, 'any', 300, 5000),
    Clause('batch sizes', batch_cases, check_batch, 'any member is batched', 1500, 60000),
    Clause('later conflicts', hv.tree_cases(['set']), check_later, 'a conflict is made', 400, 20000),
    Clause('RC elements', st.fixed_dictionaries({k: st.integers(1, 3) for k in 'rtcn'}), check_nested,
           'any member is batched', 100, 2000),
]
ASSUMPTIONS = ['Containers report conflicts when their batch size or vector form is requested',
               'Arrays given for scalar quantities are read as one value per member whichever of their dimensions is '
               'the one longer than 1']
