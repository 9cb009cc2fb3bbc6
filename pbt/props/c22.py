"""Wrapped cell models against direct calls of the cell model, row by row"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.base import DegradationModel
from moirae.models.utils import NoDegradation

from .. import ecmref as ref, estgen as eg, gen, usermodel as um
from ..core import Clause, close, raises, require, same


class Wear(DegradationModel):
    """Health of each member depends on everything which is known about that member"""

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = previous_asoh.model_copy(deep=True)
        effect = np.tanh(new_transients.soc + 0.3 * new_measurements.terminal_voltage + 0.2 * new_inputs.current
                         + 1e-3 * new_inputs.time)
        out.r0.base_values = out.r0.base_values * (1.01 + 0.01 * effect)
        out.q_t.base_values = out.q_t.base_values * (0.99 + 0.01 * effect)
        out.ce = out.ce * (0.99 + 0.01 * effect)
        out.h0.gamma = out.h0.gamma * (0.99 + 0.01 * effect)
        return out


class Schedule(DegradationModel):
    """Parameters follow a schedule in time, whatever they were"""

    def __init__(self, asoh, names):
        self.values = {n: asoh.get_parameters([n]) for n in names}

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = previous_asoh.model_copy(deep=True)
        for n, v in self.values.items():
            out.set_value(n, v * (1 + 1e-5 * new_inputs.time))
        return out


@st.composite
def conversions(draw, like):
    kind = draw(st.sampled_from(['diagonal', 'affine', 'absolute', 'none', 'scalar']))
    n = len(like)
    if kind == 'none':
        return None
    if kind == 'absolute':
        ind = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
        return {'absolute': ind}
    if kind == 'scalar':
        return {'mult': draw(gen.lognum(0.1, 10., 3)), 'add': None}
    out = draw(eg.diagonal(n, like))
    if kind == 'affine' and max(like) < 1e5 * min(like):
        full = np.diag(out['mult']) @ np.array([[1. if i == j else draw(gen.num(-0.5, 0.5, 2)) / n * like[j] / like[i]
                                                 for j in range(n)] for i in range(n)])
        out['mult'] = full.tolist()
    return out


def operator(spec):
    if spec is not None and 'absolute' in spec:
        return AbsoluteValueConversionOperator(indices=spec['absolute'])
    return eg.operator(spec)


def to_model(spec, x):
    if spec is not None and 'absolute' in spec:
        out = np.array(x, dtype=float)
        ind = list(range(out.shape[-1])) if spec['absolute'] is None else spec['absolute']
        out[..., ind] = np.abs(out[..., ind])
        return out
    return eg.to_model(spec, x)


def to_filter(spec, x):
    if spec is not None and 'absolute' in spec:
        return np.array(x, dtype=float)
    return eg.to_filter(spec, x)


@st.composite
def cases(draw):
    far = draw(st.sampled_from([1.] * 7 + [100.]))  # States may be far from where they are expected
    case = draw(eg.problems(2, 3, constant=True if far > 1 else None))
    case['far'] = far
    case['wrapper'] = draw(st.sampled_from(['joint', 'cell', 'health']))
    case['mark'] = draw(st.booleans())
    prob = eg.Problem(case, mark=case['mark'])
    sd = {k: np.sqrt(np.diag(v)).tolist() for k, v in prob.cov.items()}
    like = {'cell': sd['transient'], 'health': sd['asoh'], 'joint': sd['transient'] + sd['asoh']}[case['wrapper']]
    n_in = 2 if case['drive'][0]['temperature'] is None else 3
    case['hidden'] = draw(conversions(like))
    case['control'] = draw(st.one_of(st.none(), eg.diagonal(n_in)))
    case['output'] = draw(st.one_of(st.none(), eg.diagonal(1)))
    n = draw(st.sampled_from([3, 2, 1, 4, 6]))
    case['rows'] = eg.some(draw, [[draw(gen.num(-2., 2., 3)) for _ in like] for _ in range(n)], prob.num_states)  # In standard deviations
    case['wear'] = draw(st.sampled_from([False, True, True, 'schedule']))
    case['early'] = draw(st.booleans())
    case['spoil'] = draw(st.booleans())  # The caller changes what the wrapper was made from
    return case


def spoil(obj):
    """Change all values of an object in place and by assignment"""
    for name in type(obj).model_fields:
        val = getattr(obj, name)
        if isinstance(val, np.ndarray) and name not in ('soc_pinpoints',):
            val += 1
            setattr(obj, name, val * 3. + 1.)


def column(obj):
    return obj.to_numpy()[0]


def check(case, note):
    prob = eg.Problem(case, mark=case['mark'])
    kind, n_states = case['wrapper'], prob.num_states
    deg = {False: NoDegradation, True: Wear, 'schedule': lambda: Schedule(prob.asoh, prob.names)}[case['wear']]()
    conv = {k: case[k] for k in ('hidden', 'control', 'output')}
    args = dict(cell_model=prob.model, asoh=prob.asoh, transients=prob.state, inputs=prob.inputs[0],
                converters={f'{k}_conversion_operator': operator(v) for k, v in conv.items() if v is not None})
    if kind != 'cell':
        args['degradation_model'] = deg
        if not case['mark']:
            args['asoh_inputs'] = tuple(prob.names)
    wrapper = {'cell': CellModelWrapper, 'health': DegradationModelWrapper, 'joint': JointCellModelWrapper}[kind](**args)

    base = {'cell': prob.x0, 'health': prob.p0, 'joint': np.concatenate([prob.x0, prob.p0])}[kind]
    sd = {k: np.sqrt(np.diag(v)) for k, v in prob.cov.items()}
    sd = {'cell': sd['transient'], 'health': sd['asoh'], 'joint': np.concatenate([sd['transient'], sd['asoh']])}[kind]
    spec = case['asoh']
    tables = [spec['r0'], spec['h0'], *[e for p in spec['rc'] for e in (p['r'], p['c'])], *([spec['c0']] if spec['c0'] else [])]
    # Tables must not be extrapolated by that much
    far = case['far'] if all(len(v) == 1 for t in tables for v in t['vals']) else 1.
    far = {'cell': np.full(n_states, far), 'health': np.ones(len(base))}.get(
        kind, np.array([far] * n_states + [1.] * (len(base) - n_states)))
    points = base + np.array(case['rows']) * sd * far
    hidden = to_filter(conv['hidden'], points)
    points = to_model(conv['hidden'], hidden)  # Not the same if it is the absolute value
    require(wrapper.num_hidden_dimensions == len(base), 'number of hidden dimensions')
    if case['spoil']:
        for x in (prob.state, args['inputs'], prob.asoh, prob.asoh.q_t, prob.asoh.r0):
            spoil(x)
        prob = eg.Problem(case, mark=case['mark'])
    require(wrapper.num_output_dimensions == 1, 'number of outputs')

    controls = [to_filter(conv['control'], column(x)) for x in prob.inputs]
    inputs = [prob.inputs[0].make_copy(to_model(conv['control'], x)) for x in controls]

    def split(point):
        """State and health described by a row"""
        if kind == 'cell':
            return point, prob.p0
        if kind == 'health':
            return prob.x0, point
        return point[:n_states], point[n_states:]

    def objects(point):
        x, p = split(point)
        return (ref.build_transient(eg.state_spec(x, case['state'])),
                ref.build_asoh(eg.write(case['asoh'], prob.names, p)))

    def update(point, k):
        state, asoh = objects(point)
        new = column(prob.model.update_transient_state(inputs[k - 1], inputs[k], state, asoh))
        if kind == 'cell':
            return new
        which = inputs[k] if kind == 'health' else inputs[k - 1]
        worn = deg.update_asoh(previous_asoh=asoh, new_inputs=which, new_transients=state,
                               new_measurements=prob.model.calculate_terminal_voltage(which, state, asoh))
        health = worn.get_parameters(prob.names)[0]
        return health if kind == 'health' else np.concatenate([new, health])

    def predict(point, prev, k):
        state, asoh = objects(point)
        if kind == 'health':  # States are carried along with each estimate
            state = prob.model.update_transient_state(prev, inputs[k], state, asoh)
        return column(prob.model.calculate_terminal_voltage(inputs[k], state, asoh))

    def snapshot():
        return [wrapper.asoh.get_parameters(wrapper.asoh.all_names).tolist(), wrapper.transients.to_numpy().tolist(),
                wrapper.inputs.to_numpy().tolist(), hidden.tolist(), [c.tolist() for c in controls]]
    # Numbers in filter coordinates are compared in model coordinates, relative to deviations
    tol = dict(rtol=1e-7, atol=1e-6)

    def compare(found, expected, what):
        require(found.shape == expected.shape, f'{what}: shape {found.shape} rather than {expected.shape}')
        if conv['hidden'] is not None and 'absolute' in conv['hidden']:
            close(found / sd, expected / sd, what, **tol)
        else:
            close(eg.to_model(conv['hidden'], found) / sd, expected / sd, what, **tol)

    before = snapshot()
    prev = prob.inputs[0]
    if case['early']:  # Outputs may be asked for before any update
        out = wrapper.predict_measurement(hidden, controls[1])
        exp = np.array([predict(p, prev, 1) for p in points])
        require(out.shape == exp.shape, f'outputs: shape {out.shape} rather than {exp.shape}')
        close(eg.to_model(conv['output'], out), exp, 'outputs before any update', 1e-8, 1e-8)
    for k in range(1, len(inputs)):
        found = wrapper.update_hidden_states(hidden, controls[k - 1], controls[k])
        compare(np.array(found), np.array([update(p, k) for p in points]), f'update {k}')
        out = wrapper.predict_measurement(hidden, controls[k])
        exp = np.array([predict(p, inputs[k - 1], k) for p in points])
        require(out.shape == exp.shape, f'outputs: shape {out.shape} rather than {exp.shape}')
        close(eg.to_model(conv['output'], out), exp, f'outputs {k}', 1e-8, 1e-8)
        require(snapshot() == before, f'step {k} changed the wrapper or its arguments')
        found[...] = -1.  # Results are not part of the wrapper
        out[...] = -1.
        if not (conv['hidden'] is None or conv['output'] is None):
            require(snapshot() == before, f'the results of step {k} share memory with the wrapper or its arguments')

    # Each call is evaluated for what it is given, even when that is close to what was given before
    for nudge in (1e-4, 0., 1e-4):
        near = hidden + np.abs(hidden) * nudge * 0.03 + 1e-9 * (nudge > 0)
        rows = to_model(conv['hidden'], near)
        exp = np.array([predict(p, inputs[k - 1], k) for p in rows])
        out = np.array(wrapper.predict_measurement(near, controls[k]))
        close(eg.to_model(conv['output'], out) - exp, 0. * exp, f'outputs of close states {nudge}', 1e-9, 1e-9)
        compare(np.array(wrapper.update_hidden_states(near, controls[k - 1], controls[k])),
                np.array([update(p, k) for p in rows]), f'update of close states {nudge}')

    if kind == 'joint':
        hidden = to_filter(conv['hidden'], points)
        asoh, trans = wrapper.create_cell_model_inputs(hidden)
        close(trans.to_numpy() / sd[:n_states], points[:, :n_states] / sd[:n_states], 'states from a hidden state', **tol)
        close(asoh.get_parameters(prob.names) / sd[n_states:], points[:, n_states:] / sd[n_states:],
              'health from a hidden state', **tol)
        for name in eg.health_names(case['asoh']):
            if name not in prob.names:
                same(asoh.get_parameters([name])[0], eg.read(case['asoh'], [name]), f'{name}, not part of the hidden state')
        back = wrapper.create_hidden_state(asoh=asoh, transients=trans)
        # (Unbatched objects are repeated when they are put together)
        compare(back, points, 'hidden state from the objects made from it')
        one = wrapper.create_hidden_state(asoh=prob.asoh, transients=prob.state)
        compare(one, base[None, :], 'hidden state from the initial objects')
    note(kind, 'wear' if case['wear'] and kind != 'cell' else 'no wear', f'{len(points)} rows',
         'plain' if conv['hidden'] is None else 'absolute' if 'absolute' in conv['hidden'] else 'affine',
         *[f'{k} converted' for k, v in conv.items() if v is not None],
         nontrivial=len(points) > 1 and (conv['hidden'] is not None or case['wear']))


# --- Batches cannot be wrapped
@st.composite
def batched(draw):
    spec = draw(gen.circuit(3, max_rc=2))
    state = draw(gen.transient(len(spec['rc']), spec['c0'] is not None, 3))
    prev, new = draw(gen.input_pair(1))
    return {'asoh': spec, 'state': state, 'input': prev, 'wrapper': draw(st.sampled_from(['joint', 'cell', 'health']))}


def check_batched(case, note):
    cls = {'cell': CellModelWrapper, 'health': DegradationModelWrapper, 'joint': JointCellModelWrapper}[case['wrapper']]
    asoh, state = ref.build_asoh(case['asoh']), ref.build_transient(case['state'])
    asoh.mark_updatable('r0.base_values')

    def make():
        return cls(cell_model=ref.ECM('constant'), asoh=asoh, transients=state, inputs=ref.build_input(case['input']))
    a, s = ref.batch_of(case['asoh']), ref.batch_of(case['state'])
    if a > 1 or s > 1:
        raises(make, f'a batch of {a} parameters and {s} states', ValueError)
        note('batch', nontrivial=True)
    else:
        make()
        note('single')


# --- Numbers may be whole ones
@st.composite
def wholes(draw):
    spec = draw(um.specs())
    layout = um.health_layout(spec)
    n, p, u = um.size(spec, 'state'), sum(w for _, w in layout), um.size(spec, 'input')
    chosen = draw(st.lists(st.sampled_from([x for x, _ in layout]), min_size=1, max_size=3, unique=True))
    kind = draw(st.sampled_from(['joint', 'joint', 'cell', 'health']))
    k = sum(w for x, w in layout if x in chosen)
    dim = {'joint': n + k, 'cell': n, 'health': k}[kind]
    return {'spec': spec, 'wrapper': kind, 'names': chosen, 'state': draw(um.vectors(n, whole=True)),
            'health': draw(um.vectors(p, whole=True)), 'inputs': [draw(um.vectors(u, whole=True)) for _ in range(2)],
            'rows': [draw(um.vectors(dim, whole=True)) for _ in range(draw(st.integers(1, 3)))], 'wear': draw(st.booleans()),
            'which': draw(st.lists(st.booleans(), min_size=3, max_size=3))}


def check_wholes(case, note):
    spec, kind = case['spec'], case['wrapper']
    model = um.Model(spec)
    phys, layout = model.physics, um.health_layout(spec)
    base, cols, at = np.array(case['health']), {}, 0
    for n, w in layout:
        cols[n] = list(range(at, at + w))
        at += w
    sel = [c for n in case['names'] for c in cols[n]]
    x0, ns = np.array(case['state']), len(case['state'])
    asoh = um.build_health({n: base[None, c] for n, c in cols.items()}, spec)
    for n in case['names']:
        asoh.mark_updatable(n)
    args = dict(cell_model=model, asoh=asoh,
                transients=um.build('state', x0, spec), inputs=um.build('input', case['inputs'][0], spec))
    if kind != 'cell':
        args['asoh_inputs'] = tuple(case['names'])
        if case['wear']:
            args['degradation_model'] = um.Wear(model)
    wrapper = {'cell': CellModelWrapper, 'health': DegradationModelWrapper, 'joint': JointCellModelWrapper}[kind](**args)
    hidden, u0, u1 = [np.array(v).astype(int if w else float) for v, w in
                      zip((case['rows'], *case['inputs']), case['which'])]

    def split(row):
        p = base.copy()
        if kind == 'cell':
            return np.array(row), p
        p[sel] = row if kind == 'health' else row[ns:]
        return (x0 if kind == 'health' else np.array(row[:ns])), p

    def update(row):
        x, p = split(row)
        new = phys.advance(x, p, u0, u1)
        if kind == 'cell':
            return new
        u = u1 if kind == 'health' else u0
        p = (um.Physics.wear(p, x, phys.observe(x, p, u), u) if case['wear'] else p)[sel]
        return p if kind == 'health' else np.concatenate([new, p])

    def predict(row):
        x, p = split(row)
        return phys.observe(phys.advance(x, p, u0, u1) if kind == 'health' else x, p, u1)
    given = [v.copy() for v in (hidden, u0, u1)]
    close(wrapper.update_hidden_states(hidden, u0, u1), [update(r) for r in case['rows']], 'updated states', 1e-9, 1e-9)
    close(wrapper.predict_measurement(hidden, u1), [predict(r) for r in case['rows']], 'outputs', 1e-9, 1e-9)
    for a, b in zip((hidden, u0, u1), given):
        same(a, b, 'arguments')
    note(kind, *(f'{n} whole' for n, w in zip(('rows', 'previous controls', 'new controls'), case['which']) if w),
         nontrivial=case['which'][0])


CLAUSES = [
    Clause('rows', cases, check, 'several rows, converted or with degradation', 1000, 40000),
    Clause('whole numbers', wholes, check_wholes, 'hidden states are an array of integers', 200, 8000),
    Clause('batches', batched, check_batched, 'something is batched', 200, 5000),
]
ASSUMPTIONS = ['Degradation models return a new object, as documented']
