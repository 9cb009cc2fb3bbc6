"""Thevenin adapter with a stand-in for the solver, against each member's values by hand"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, thevenin_stub as stub, thevgen as tg
from ..core import Clause, close, require, same

from moirae.estimators.online.utils.model import JointCellModelWrapper
from moirae.models.base import InputQuantities, OutputQuantities
from moirae.models.thevenin import TheveninModel
from moirae.models.thevenin.state import TheveninTransient
from moirae.simulator import Simulator


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    # Which of circuit, state, new and previous inputs may be batched
    sizes_of = [n if b else 1 for b in draw(st.sampled_from([(1, 1, 1, 1)] * 3 + list(itertools.product([0, 1], repeat=4))[1:]))]
    circuit = draw(tg.circuits(sizes_of[0]))
    rc = len(circuit['c'])
    case = {'circuit': circuit, 'isothermal': draw(st.booleans()), 'voltage inputs': draw(st.booleans()),
            'transient': {'soc': gen.rows(draw, gen.num(0., 1.), sizes_of[1]), 'temp': gen.rows(draw, gen.num(280., 320.), sizes_of[1]),
                          'eta': gen.rows(draw, gen.num(-0.2, 0.2), sizes_of[1], rc)}}

    def inputs(lo, hi, n):
        return {'time': gen.rows(draw, gen.num(lo, hi), n), 'current': gen.rows(draw, gen.num(-10., 10.), n),
                't_inf': gen.rows(draw, gen.num(280., 320.), n)}
    case['new'] = inputs(500., 2000., sizes_of[2])
    case['previous'] = inputs(-100., 499., sizes_of[3])
    case['n'] = max(sizes(case['new']) + sizes(circuit) + sizes(case['transient']) + sizes(case['previous']))
    case['from asoh'] = {'soc': draw(gen.num(0., 1.)), 'temp': draw(gen.num(280., 320.))}
    return case


def sizes(spec):
    if isinstance(spec, dict):
        return [s for v in spec.values() for s in sizes(v)]
    if spec and isinstance(spec[0], dict):
        return [s for v in spec for s in sizes(v)]
    return [len(spec)] if spec else []


def values(circuit, inputs, isothermal, b):
    """Same order as in the stand-in"""
    out = [tg.row(x, b)[0] for x in (circuit['capacity'], circuit['mass'], circuit['c_p'], inputs['t_inf'],
                                     circuit['h_thermal'], circuit['a_therm'])] + [float(isothermal)]
    for soc, temp in stub.PROBES:
        out.append(tg.evaluate(circuit['ocv'], b, soc))
        out.extend(tg.evaluate_both(x, b, soc, temp) for x in circuit['r'] + circuit['c'])
    return out


def check(case, note):
    n, circuit, trans, new, prev = (case[k] for k in ('n', 'circuit', 'transient', 'new', 'previous'))
    rc = len(circuit['c'])
    asoh, state = tg.build(circuit), tg.build_transient(trans)
    new_in, prev_in = tg.build_inputs(new), tg.build_inputs(prev)
    model = TheveninModel(isothermal=case['isothermal'])
    before = [x.model_dump_json() for x in (asoh, state, new_in, prev_in)]

    exp, exp_v = [], []
    for b in range(n):
        cur = tg.row(new['current'], b)[0]
        dt = tg.row(new['time'], b)[0] - tg.row(prev['time'], b)[0]
        ans = stub.answer(tg.row(trans['eta'], b), tg.row(trans['soc'], b)[0], -cur, dt,
                          values(circuit, new, case['isothermal'], b), 2)
        exp.append(list(ans.values()))
        soc, temp = tg.row(trans['soc'], b)[0], tg.row(trans['temp'], b)[0]
        exp_v.append([tg.evaluate(circuit['ocv'], b, soc) + cur * tg.evaluate_both(circuit['r'][0], b, soc, temp)
                      - sum(tg.row(trans['eta'], b))])

    out = model.update_transient_state(prev_in, new_in, state, asoh)
    require(isinstance(out, TheveninTransient), f'state is a {type(out).__name__}')
    close(out.to_numpy(), exp, 'updated state', 1e-9, 1e-7)
    volt_in = new_in if case['voltage inputs'] else InputQuantities(time=new_in.time, current=new_in.current)
    volt = model.calculate_terminal_voltage(volt_in, state, asoh)
    require(isinstance(volt, OutputQuantities), f'output is a {type(volt).__name__}')
    # One row suffices if nothing that matters to the voltage is batched
    got = volt.terminal_voltage
    require(got.shape in ([(n, 1), (1, 1)] if np.ptp(exp_v) == 0 else [(n, 1)]), f'voltage of shape {got.shape}')
    close(got, exp_v[:len(got)], 'voltage', 1e-9, 1e-9)
    require([x.model_dump_json() for x in (asoh, state, new_in, prev_in)] == before, 'arguments were changed')
    same(model.update_transient_state(prev_in, new_in, state, asoh).to_numpy(), out.to_numpy(), 'updated state, once more')

    # Members alone
    for b in range(n):
        alone = [tg.build(tg.member(circuit, b)), tg.build_transient(tg.member(trans, b)), tg.build_inputs(tg.member(new, b)),
                 tg.build_inputs(tg.member(prev, b))]
        close(model.update_transient_state(alone[3], alone[2], alone[1], alone[0]).to_numpy(), [out.to_numpy()[b]],
              f'member {b} alone', 1e-9, 1e-7)
        close(model.calculate_terminal_voltage(alone[2], alone[1], alone[0]).to_numpy(), [exp_v[b]], f'voltage of member {b} alone')

    first = TheveninTransient.from_asoh(asoh, **case['from asoh'])
    close(first.to_numpy(), [[case['from asoh']['soc'], case['from asoh']['temp']] + [0.] * rc], 'state made for the circuit')
    note(f'{rc} RC elements', 'single' if n == 1 else 'batch', nontrivial=n > 1 and rc > 0)


# --- Through the simulator, and through the wrappers of the estimators
@st.composite
def runs(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    circuit = draw(tg.circuits(1 if draw(st.booleans()) else n, draw(st.sampled_from([0, 1, 2]))))
    rc = len(circuit['c'])
    m = n if draw(st.booleans()) else 1
    case = {'circuit': circuit, 'isothermal': draw(st.booleans()),
            'transient': {'soc': gen.rows(draw, gen.num(0., 1.), m), 'temp': gen.rows(draw, gen.num(280., 320.), m),
                          'eta': gen.rows(draw, gen.num(-0.2, 0.2), m, rc)}}
    time, case['drive'] = draw(gen.num(-100., 100.)), []
    for _ in range(draw(st.integers(2, 5))):
        m = n if draw(st.booleans()) else 1
        case['drive'].append({'time': [[time]], 'current': gen.rows(draw, gen.num(-3., 3.), m),
                              't_inf': gen.rows(draw, gen.num(280., 320.), draw(st.sampled_from([1, m])))})
        time += draw(gen.num(0.5, 60.))
    # Rows of hidden states: the transient state, then some of the parameters
    case['names'] = draw(st.permutations(['capacity', 'c_p', 'ocv.coeffs', 'r.0.soc_coeffs', 'r.0.t_ref']
                                         + (['c.0.t_coeffs', 'r.1.soc_coeffs'] if rc else [])))[:draw(st.integers(1, 3))]
    case['rows'] = draw(st.integers(1, 4))
    case['factors'] = [[draw(gen.num(0.8, 1.2)) for _ in range(5)] for _ in range(case['rows'])]
    return case


def by_hand(case, circuit, trans, drive, k, b):
    """One member after one step, and its voltage"""
    rc = len(circuit['c'])
    new, prev = drive[k], drive[k - 1]
    cur = tg.row(new['current'], b)[0]
    if k > 0:
        dt = tg.row(new['time'], b)[0] - tg.row(prev['time'], b)[0]
        trans = list(stub.answer(trans[2:], trans[0], -cur, dt, values(circuit, new, case['isothermal'], b), 2).values())
    v = tg.evaluate(circuit['ocv'], b, trans[0]) + cur * tg.evaluate_both(circuit['r'][0], b, trans[0], trans[1]) - sum(trans[2:])
    require(len(trans) == 2 + rc, 'harness')
    return trans, v


def check_run(case, note):
    circuit, trans, drive = case['circuit'], case['transient'], case['drive']
    n = max(sizes(circuit) + sizes(trans) + [s for x in drive for s in sizes(x)])
    asoh, state, inputs = tg.build(circuit), tg.build_transient(trans), [tg.build_inputs(x) for x in drive]
    model = TheveninModel(isothermal=case['isothermal'])
    sim = Simulator(model, asoh, state, inputs[0], keep_history=True)
    sim.evolve(inputs[1:])
    table = sim.to_dataframe()
    now = [[tg.row(trans['soc'], b)[0], tg.row(trans['temp'], b)[0], *tg.row(trans['eta'], b)] for b in range(n)]
    size = int(table['batch'].max()) + 1
    require(size == n or n % size == 0 and size == 1, f'{size} members rather than {n}')
    expect = []
    for k in range(len(drive)):
        volts = []
        for b in range(n):
            now[b], v = by_hand(case, circuit, now[b], drive, k, b)
            volts.append(v)
        expect.append([list(x) for x in now])
        for b in range(size):
            row = table.iloc[k * size + b]
            close([row['time'], row['current'], row['t_inf']], [tg.row(drive[k][x], b)[0] for x in ('time', 'current', 't_inf')],
                  f'inputs of member {b} at {k}', 1e-12, 1e-12)
            close([row['soc'], row['temp'], *[row[f'eta[{j}]'] if len(now[b]) > 3 else row['eta'] for j in range(len(now[b]) - 2)]],
                  now[b], f'state of member {b} at {k}', 1e-7, 1e-7)
            close(row['terminal_voltage'], volts[b], f'voltage of member {b} at {k}', 1e-7, 1e-7)

    # What filters see: the first member
    first, one = tg.member(circuit, 0), [tg.member(x, 0) for x in drive[:2]]
    asoh = tg.build(first)
    asoh.mark_all_updatable()
    wrapper = JointCellModelWrapper(cell_model=model, asoh=asoh, transients=tg.build_transient(tg.member(trans, 0)),
                                    inputs=tg.build_inputs(one[0]), asoh_inputs=tuple(case['names']))
    base = np.concatenate([expect[0][0], *[asoh.get_parameters([x])[0] for x in case['names']]])
    rows = np.array([base * np.resize(f, base.shape) for f in case['factors']])
    n_trans = len(expect[0][0])
    got = wrapper.update_hidden_states(rows, *[tg.build_inputs(x).to_numpy() for x in one])
    seen = wrapper.predict_measurement(rows, tg.build_inputs(one[1]).to_numpy())
    for k, x in enumerate(rows):
        own = tg.member(first, 0)
        at = n_trans
        for name in case['names']:
            node, keys = own, name.replace('soc_coeffs', 's').replace('t_coeffs', 't').replace('.coeffs', '').split('.')
            for key in keys[:-1]:
                node = node[int(key) if key.isdigit() else key]
            width = len(node[keys[-1]][0])
            node[keys[-1]] = [x[at:at + width].tolist()]
            at += width
        exp, _ = by_hand(case, own, list(x[:n_trans]), one, 1, 0)
        _, exp_v = by_hand(case, own, list(x[:n_trans]), one[1:], 0, 0)
        close(got[k], [*exp, *x[n_trans:]], f'hidden state {k}', 1e-7, 1e-7)
        close(seen[k], [exp_v], f'measurement of hidden state {k}', 1e-7, 1e-7)
    note(f'{n} members', f'{len(case["names"])} parameters', nontrivial=n > 1 and len(drive) > 2 and len(circuit['c']) > 0)


CLAUSES = [Clause('adapter', cases, check, 'several members, RC elements', 500, 20000),
           Clause('run', runs, check_run, 'several members, several steps, RC elements', 400, 8000)]
ASSUMPTIONS = ['The solver is a stand-in with the interface used by the adapter: the real one is not installed here',
               'The temperature of the cell at the start of a step is up to the solver']
