"""JSON"""
import json

import numpy as np
from hypothesis import strategies as st

from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector
from moirae.simulator import Simulator

from .. import ecmref as ref, gen, hvtree as hv, thevenin_stub  # noqa: F401
from ..core import Clause, close, require, same

from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient


def flags(obj, where=''):
    """Updatable selection of every submodel"""
    out = {where: sorted(obj.updatable)}
    for key in obj.model_fields:
        field = getattr(obj, key)
        if hasattr(field, 'updatable'):
            out.update(flags(field, f'{where}{key}.'))
        elif isinstance(field, (tuple, dict)):
            for k, sub in (field.items() if isinstance(field, dict) else enumerate(field)):
                out.update(flags(sub, f'{where}{key}.{k}.'))
    return out


def others(obj, where=''):
    """Settings which are not parameters"""
    out = {}
    for key in obj.model_fields:
        field = getattr(obj, key)
        if hasattr(field, 'updatable'):
            out.update(others(field, f'{where}{key}.'))
        elif isinstance(field, (tuple, dict)):
            for k, sub in (field.items() if isinstance(field, dict) else enumerate(field)):
                out.update(others(sub, f'{where}{key}.{k}.'))
        elif key in ('soc_pinpoints',):
            out[where + key] = None if field is None else np.asarray(field).tolist()
        elif not isinstance(field, np.ndarray) and key != 'updatable':
            out[where + key] = field
    return out


def contents(obj):
    return {'values': {n: v.copy() for n, v in obj.iter_parameters(updatable_only=False)}, 'flags': flags(obj),
            'others': others(obj), 'updatable': list(obj.updatable_names), 'batch': obj.batch_size}


def compare(a, b, what):
    require(list(a['values']) == list(b['values']), f'{what}: names are {list(a["values"])}, '
                                                    f'expected {list(b["values"])}')
    for n, v in b['values'].items():
        same(a['values'][n], v, f'{what}: {n}')
    for k in ('flags', 'others', 'updatable', 'batch'):
        require(a[k] == b[k], lambda: f'{what}: {k} are {a[k]}, expected {b[k]}')


def round_trip(obj, via):
    """Save an object and load it"""
    if via % 2:
        return type(obj).model_validate(json.loads(obj.model_dump_json()))
    return type(obj).model_validate_json(obj.model_dump_json(indent=1 if via == 2 else None))


def mark(obj, names, ops):
    """Some selection of parameters"""
    for kind, i, j, k, flag in ops:
        if kind == 'all':
            obj.mark_all_updatable(recurse=flag)
        elif kind == 'fix':
            obj.mark_all_fixed(recurse=flag)
        else:
            obj.mark_updatable(names[i % len(names)])


MARKS = ['mark', 'mark', 'mark', 'mark', 'all', 'fix']


def check_tree(case, note):
    obj, model, _ = hv.make(case)
    mark(obj, model.names, case['ops'])
    before = contents(obj)
    loaded = round_trip(obj, case['salt'] % 3)
    compare(contents(obj), before, 'object which was saved')
    compare(contents(loaded), before, 'object which was loaded')
    hv.agree(loaded, model, 'object which was loaded')
    compare(contents(round_trip(loaded, 0)), before, 'object which was saved and loaded twice')
    # The loaded object is a full one
    loaded.mark_all_updatable()
    new = loaded.get_parameters() + 1.
    loaded.update_parameters(new)
    same(loaded.get_parameters(), new, 'values written to the loaded object')
    compare(contents(obj), before, 'object which was saved, after the loaded one was changed')
    note('selected' if before['updatable'] else 'nothing selected', nontrivial=len(model.names) > 3)


@st.composite
def circuit_cases(draw):
    batch = draw(st.sampled_from([1, 1, 2, 3]))
    asoh = draw(gen.circuit(batch))
    return {'asoh': asoh, 'batch': batch, 'ops': draw(hv.operations(MARKS)),
            'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=(0.3, 0.7))),
            'drive': draw(gen.drive(asoh['q_t'], 1, 3, batch=batch)), 'behavior': draw(gen.behaviors),
            'used': draw(st.sampled_from(['no', 'evaluated', 'simulated'])), 'via': draw(st.integers(0, 2))}


def simulate(case, asoh, state, inputs):
    sim = Simulator(ref.ECM(case['behavior']), asoh, state, inputs[0], keep_history=True)
    sim.evolve(inputs[1:])
    return [x.to_numpy() for x in sim.transient_history], [x.to_numpy() for x in sim.measurement_history]


def check_circuit(case, note):
    asoh = ref.build_asoh(case['asoh'])
    state = ref.build_transient(case['state'])
    inputs = [ref.build_input(x) for x in case['drive']]
    mark(asoh, hv.node_names(case['asoh']), case['ops'])
    fresh = ref.build_asoh(case['asoh'])
    model = ref.ECM(case['behavior'])
    if case['used'] == 'evaluated':
        # Parameters remember things when they are evaluated
        model.update_transient_state(inputs[0], inputs[1], state, asoh)
        model.calculate_terminal_voltage(inputs[1], state, asoh)
        asoh.get_theoretical_energy()
    elif case['used'] == 'simulated':
        sim = Simulator(model, asoh, state, inputs[0], keep_history=True)
        sim.evolve(inputs[1:])
        asoh, state = sim.asoh, sim.transient
        inputs = [sim.previous_input, *[_later(sim.previous_input, x) for x in case['drive'][1:]]]
    before = contents(asoh)
    text = asoh.model_dump_json()
    require(asoh.model_dump_json() == text, 'saving twice gives different text')
    compare(contents(asoh), before, 'health parameters which were saved')
    loaded = round_trip(asoh, case['via'])
    compare(contents(loaded), before, 'health parameters which were loaded')
    saved_state, saved_inputs = round_trip(state, case['via']), [round_trip(x, case['via']) for x in inputs]
    same(saved_state.to_numpy(), state.to_numpy(), 'transient state which was loaded')
    for a, b in zip(saved_inputs, inputs):
        same(a.to_numpy(), b.to_numpy(), 'input which was loaded')
        require((a.temperature is None) == (b.temperature is None), 'temperature of an input')

    expected = simulate(case, asoh, state, inputs)
    for what, found in [('loaded parameters', simulate(case, loaded, state, inputs)),
                        ('everything loaded', simulate(case, loaded, saved_state, saved_inputs))]:
        for k, name in enumerate(['states', 'voltages']):
            for a, b in zip(found[k], expected[k]):
                close(a, b, f'{name} predicted with {what}', 1e-12, 1e-12)
    close(loaded.get_theoretical_energy(), asoh.get_theoretical_energy(), 'energy', 1e-12, 1e-12)
    # Evaluating parameters does not change what they mean
    for n, v in fresh.iter_parameters(updatable_only=False):
        same(before['values'][n], v, f'{n} after use')
    note(case['used'], case['behavior'], f'batch of {case["batch"]}', 'selected' if before['updatable'] else
         'nothing selected', nontrivial=case['used'] != 'no' and any(v.shape[1] > 1 for v in before['values'].values()))


def _later(first, spec):
    """Input after another one"""
    x = ref.build_input(spec)
    x.time = first.time + 10. + np.abs(x.time) % 50.
    return x


@st.composite
def container_cases(draw):
    batch = draw(st.sampled_from([1, 2, 3]))
    kind = draw(st.sampled_from(['transient', 'input', 'measurement', 'thevenin']))
    case = {'kind': kind, 'via': draw(st.integers(0, 2))}
    if kind in ('transient', 'thevenin'):
        case['spec'] = draw(gen.transient(draw(st.integers(0, 4)), draw(st.booleans()), batch))
    elif kind == 'input':
        case['spec'] = draw(gen.input_pair(batch))[0]
    else:
        case['spec'] = gen.rows(draw, gen.num(0., 5., 6), batch)
    case['jitter'] = draw(st.integers(0, 2 ** 40))  # So that values have all of their digits
    return case


def check_container(case, note):
    kind, spec = case['kind'], case['spec']
    if kind == 'transient':
        objs = [ref.build_transient(spec)]
    elif kind == 'input':
        objs = [ref.build_input(spec)]
    elif kind == 'measurement':
        objs = [ECMMeasurement(terminal_voltage=np.array(spec))]
    else:
        objs = [TheveninTransient(soc=np.array(spec['soc']), temp=290. + np.array(spec['hyst']),
                                  eta=np.array(spec['i_rc'], dtype=float).reshape(len(spec['i_rc']), -1)),
                TheveninInput(time=np.array(spec['soc']), current=np.array(spec['hyst']), t_inf=300.)]
    for obj in objs:
        for n in obj.model_fields:
            if getattr(obj, n) is not None:
                setattr(obj, n, getattr(obj, n) * (1. + case['jitter'] * 2. ** -52))
        before = {n: None if getattr(obj, n) is None else getattr(obj, n).copy() for n in obj.model_fields}
        loaded = round_trip(obj, case['via'])
        for who, o in [('saved', obj), ('loaded', loaded)]:
            for n, v in before.items():
                x = getattr(o, n)
                require((x is None) == (v is None), f'{n} of the {who} object is {x!r}, expected {v!r}')
                if v is not None:
                    same(x, v, f'{n} of the {who} object')
        require(loaded.all_names == obj.all_names, f'names are {loaded.all_names}, expected {obj.all_names}')
        require(loaded.batch_size == obj.batch_size, 'batch size of the loaded object')
    note(kind, nontrivial=objs[0].batch_size > 1 or len(objs[0]) > 1)


@st.composite
def thevenin_cases(draw):
    batch = draw(st.sampled_from([1, 2, 3]))
    n = draw(st.integers(0, 2))

    def var():
        return {'t_ref': gen.rows(draw, gen.num(280., 310.), batch),
                'soc': gen.rows(draw, gen.num(0.1, 1.), batch, draw(st.integers(1, 3))),
                't': gen.rows(draw, gen.num(-0.01, 0.01), batch, draw(st.integers(1, 2)))}
    return {'capacity': gen.rows(draw, gen.num(0.1, 10.), batch), 'c_p': gen.rows(draw, gen.num(900., 1200.), batch),
            'ocv': gen.rows(draw, gen.num(2., 4.), batch, draw(st.integers(1, 4))),
            'r': [var() for _ in range(n + 1)], 'c': [var() for _ in range(n)], 'ops': draw(hv.operations(MARKS)),
            'via': draw(st.integers(0, 2))}


def build_thevenin(case):
    def var(x):
        return SOCTempPolynomialVariable(t_ref=np.array(x['t_ref']), soc_coeffs=np.array(x['soc']),
                                         t_coeffs=np.array(x['t']))
    return TheveninASOH(capacity=np.array(case['capacity']), c_p=np.array(case['c_p']),
                        ocv=SOCPolynomialVariable(coeffs=np.array(case['ocv'])),
                        r=tuple(map(var, case['r'])), c=tuple(map(var, case['c'])))


def check_thevenin(case, note):
    obj = build_thevenin(case)
    mark(obj, list(obj.all_names), case['ops'])
    before = contents(obj)
    loaded = round_trip(obj, case['via'])
    compare(contents(obj), before, 'object which was saved')
    compare(contents(loaded), before, 'object which was loaded')
    for b in range(obj.batch_size):
        close(loaded.ocv(0.3, b), obj.ocv(0.3, b), 'OCV')
        for x, y in zip(loaded.r + loaded.c, obj.r + obj.c):
            close(x(0.3, 300., b), y(0.3, 300., b), 'resistance or capacitance')
    note(nontrivial=obj.batch_size > 1 or len(case['r']) > 1)


CLAUSES = [
    Clause('trees', hv.tree_cases(MARKS), check_tree, 'the tree has submodels', 600, 30000),
    Clause('circuits', circuit_cases, check_circuit, 'parameters which depend on SOC were used before being saved',
           400, 15000),
    Clause('states and inputs', container_cases, check_container, 'more than one value', 800, 30000),
    Clause('thevenin parameters', thevenin_cases, check_thevenin, 'batched, or with RC elements', 200, 8000),
]
ASSUMPTIONS = ['Values are finite', 'Polynomials are the only kind of Thevenin parameters considered']
