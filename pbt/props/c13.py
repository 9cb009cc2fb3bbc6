"""A simulation as the repeated application of the models"""
import numpy as np
from hypothesis import strategies as st

from moirae.models.base import DegradationModel
from moirae.models.utils import NoDegradation
from moirae.simulator import Simulator

from .. import ecmref as ref, gen
from ..core import Clause, close, require, same


class Fade(DegradationModel):
    """Health depends on everything it is told about"""

    def __init__(self):
        self.calls = []

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = previous_asoh.model_copy(deep=True)
        soc = np.clip(np.mean(new_transients.soc), 0, 1)
        v = np.clip(np.mean(new_measurements.terminal_voltage), 0, 5)
        i = np.tanh(np.mean(new_inputs.current))
        out.r0.base_values = out.r0.base_values * (1.01 + 0.01 * i)
        out.q_t.base_values = out.q_t.base_values * (1 - 0.005 * soc)
        out.ce = out.ce * (1 - 0.001 * v)
        return out


@st.composite
def cases(draw):
    batch = draw(st.sampled_from([1, 1, 2, 3] * 3 + [6]))
    asoh = draw(gen.circuit(batch))
    drive = gen.tile(draw(gen.drive(asoh['q_t'], 1, 8, batch=batch, mixed=True)), draw(gen.once_or_many))
    groups, left = [], len(drive) - 1
    while left > 0:
        n = draw(st.integers(1, left))
        groups.append([n, draw(st.sampled_from(['step', 'evolve']))])
        left -= n
    return {'asoh': asoh, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=(0.3, 0.7))),
            'drive': drive, 'behavior': draw(gen.behaviors), 'groups': groups, 'degrade': draw(st.booleans()),
            'history': draw(st.booleans()), 'mutate': draw(st.booleans()),
            # Steps at which the caller gives the very object of the step before
            'again': draw(st.one_of(st.just([]), st.lists(st.integers(1, len(drive) - 1), max_size=3, unique=True)))}


def spoil(obj):
    """Change all values of an object in place and by assignment"""
    for name in obj.model_fields:
        val = getattr(obj, name)
        if isinstance(val, np.ndarray):
            val += 7
            setattr(obj, name, val * 3. + 1.)


def values(obj):
    return obj.get_parameters(obj.all_names) if hasattr(obj, 'get_parameters') else obj.to_numpy()


def check(case, note):
    def fresh():
        inputs = [ref.build_input(x) for x in case['drive']]
        for k in sorted(case['again']) if not case['mutate'] else []:
            inputs[k] = inputs[k - 1]
        return ref.build_asoh(case['asoh']), ref.build_transient(case['state']), inputs

    # By hand
    model, deg = ref.ECM(case['behavior']), Fade() if case['degrade'] else NoDegradation()
    asoh, state, inputs = fresh()
    exp = [(inputs[0], state, asoh, model.calculate_terminal_voltage(inputs[0], state, asoh))]
    for prev, new in zip(inputs, inputs[1:]):
        state = model.update_transient_state(prev, new, state, asoh)
        y = model.calculate_terminal_voltage(new, state, asoh)
        asoh = deg.update_asoh(previous_asoh=asoh, new_inputs=new, new_transients=state, new_measurements=y)
        exp.append((new, state, asoh, y))

    # With a simulator
    own_asoh, own_state, own_inputs = fresh()
    kwargs = {'degradation_model': Fade()} if case['degrade'] else {}
    before = [values(own_asoh).tolist(), *ref.snapshot(own_state, *own_inputs)]
    sim = Simulator(cell_model=ref.ECM(case['behavior']), asoh=own_asoh, transient_state=own_state,
                    initial_input=own_inputs[0], keep_history=case['history'], **kwargs)
    close(sim.measurement.to_numpy(), exp[0][3].to_numpy(), 'initial measurement', 1e-12, 1e-12)
    if case['mutate']:
        for x in (own_state, own_inputs[0], own_asoh, own_asoh.q_t, own_asoh.r0, own_asoh.ocv.ocv_ref):
            spoil(x)
    k = 0
    for n, how in case['groups']:
        chunk = own_inputs[k + 1:k + 1 + n]
        if how == 'evolve':
            got = sim.evolve(chunk)
            require(len(got) == n, f'evolve gave {len(got)} measurements for {n} inputs')
            for j, y in enumerate(got):
                close(y.to_numpy(), exp[k + 1 + j][3].to_numpy(), f'measurement {k + 1 + j}', 1e-12, 1e-12)
        else:
            for j, x in enumerate(chunk):
                s, y = sim.step(x)
                close(s.to_numpy(), exp[k + 1 + j][1].to_numpy(), f'state {k + 1 + j}', 1e-12, 1e-12)
                close(y.to_numpy(), exp[k + 1 + j][3].to_numpy(), f'measurement {k + 1 + j}', 1e-12, 1e-12)
        if not case['mutate']:
            require(before == [values(own_asoh).tolist(), *ref.snapshot(own_state, *own_inputs)],
                    'the simulation changed objects of the caller')
        else:
            for x in chunk:
                spoil(x)
        k += n
        close(sim.transient.to_numpy(), exp[k][1].to_numpy(), 'current state', 1e-12, 1e-12)
        close(sim.measurement.to_numpy(), exp[k][3].to_numpy(), 'current measurement', 1e-12, 1e-12)
        close(values(sim.asoh), values(exp[k][2]), 'current health', 1e-12, 1e-12)
        close(sim.previous_input.to_numpy(), exp[k][0].to_numpy(), 'last input', 0, 0)

    if case['history']:
        hists = [sim.input_history, sim.transient_history, sim.asoh_history, sim.measurement_history]
        for h, what in zip(hists, ['inputs', 'states', 'health', 'measurements']):
            require(len(h) == len(exp), f'history of {what} has {len(h)} entries rather than {len(exp)}')
        for k, e in enumerate(exp):
            for h, x, what in zip(hists, e, ['inputs', 'states', 'health', 'measurements']):
                close(values(h[k]), values(x), f'history of {what} at {k}', 1e-12, 1e-12)
    note('degrading' if case['degrade'] else 'constant health', case['behavior'],
         'history' if case['history'] else 'no history', 'mutating' if case['mutate'] else 'not mutating',
         'batch' if ref.batch_of({k: case[k] for k in ('asoh', 'state')}, *case['drive']) > 1 else 'single',
         nontrivial=len(exp) > 2)


CLAUSES = [Clause('fold', cases, check, 'at least two steps', 800, 30000)]
ASSUMPTIONS = ['Degradation models return a new object, as documented']
