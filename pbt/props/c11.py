"""Physical invariants along simulated histories"""
import numpy as np
from hypothesis import strategies as st

from moirae.simulator import Simulator

from .. import ecmref as ref, gen
from ..core import Clause, close, require


@st.composite
def cases(draw):
    batch = draw(st.sampled_from([1, 1, 2, 3]))
    wide = draw(st.booleans())  # Beyond empty and full, where tables would be extrapolated
    asoh = draw(gen.circuit(batch, constant=True if wide else None, fast=True))
    if draw(st.booleans()):
        asoh['ce'] = [[1.]]
    state = draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=(0., 1.) if wide else (0.3, 0.7)))
    if draw(st.booleans()):  # Hysteresis starts within its envelope
        bound = min(v for r in asoh['h0']['vals'] for v in r)
        state['hyst'] = [[max(-bound, min(bound, x[0]))] for x in state['hyst']]
    drive = gen.tile(draw(gen.drive(asoh['q_t'], 1, 10, batch=batch, mixed=True, budget=2. if wide else 0.28)),
                     draw(gen.once_or_more))
    pause = draw(st.one_of(st.none(), st.none(), gen.lognum(60., 1e7)))  # Left alone at the end, for as long as months
    if pause is not None:
        t = drive[-1]['time'][0][0]
        drive = drive + [{**drive[-1], 'time': [[x]], 'current': [[0.]]} for x in (t, t + pause)]
    return {'asoh': asoh, 'state': state, 'drive': drive,
            'behavior': draw(gen.behaviors)}


def simulate(case):
    sim = Simulator(ref.ECM(case['behavior']), ref.build_asoh(case['asoh']), ref.build_transient(case['state']),
                    ref.build_input(case['drive'][0]), keep_history=True)
    sim.evolve([ref.build_input(x) for x in case['drive'][1:]])
    return sim


def check(case, note):
    batch = ref.batch_of({k: case[k] for k in ('asoh', 'state')}, *case['drive'])
    sim = simulate(case)
    hist = sim.transient_history
    require(len(hist) == len(case['drive']), 'history does not have one entry per input')
    linear = case['behavior'] == 'linear'
    for b in range(batch):
        def series(name):
            return [float(ref.expand(getattr(h, name), batch)[b, 0]) for h in hist]
        soc, hyst = series('soc'), series('hyst')
        q0 = series('q0') if case['state']['q0'] is not None else None
        i_rc = np.array([ref.expand(h.i_rc, batch)[b] for h in hist])
        cur = [ref.pick(x['current'], b) for x in case['drive']]
        time = [ref.pick(x['time'], b) for x in case['drive']]
        qt = 3600 * ref.pick(case['asoh']['q_t'], b)
        ce = ref.pick(case['asoh']['ce'], b)
        total = 0.
        for k in range(1, len(hist)):
            dt, i0, i1 = time[k] - time[k - 1], cur[k - 1], cur[k]
            charge = dt * ((i0 + i1) / 2 if linear else i0)
            total += charge
            used = (i0, i1) if linear else (i0,)
            at = f'at step {k} of member {b}'

            # Charge
            if ce == 1.:
                close(soc[k], soc[0] + total / qt, f'SOC from net charge {at}', 1e-9, 1e-9)
            if q0 is not None:
                close(q0[k], q0[0] + total, f'charge of series capacitor {at}', 1e-9, 1e-8)
            if all(i >= 0 for i in used):
                require(soc[k] >= soc[k - 1] - 1e-12, f'charging lowered SOC {at}: {soc[k - 1]} to {soc[k]}')
                require(soc[k] - soc[k - 1] <= charge / qt + 1e-9, f'charging gained more than was supplied {at}')
                if charge > 0:
                    require(soc[k] - soc[k - 1] >= 0.5 * charge / qt - 1e-9, f'charging was not accounted for {at}')
            if all(i <= 0 for i in used):
                require(soc[k] <= soc[k - 1] + 1e-12, f'discharging raised SOC {at}: {soc[k - 1]} to {soc[k]}')
                close(soc[k] - soc[k - 1], charge / qt, f'discharge {at}', 1e-9, 1e-9)
            rest = all(i == 0 for i in used)
            if rest:
                close(soc[k], soc[k - 1], f'SOC at rest {at}', 0, 1e-13)
                close(hyst[k], hyst[k - 1], f'hysteresis at rest {at}', 0, 1e-13)

            # RC currents: within the range of the starting and the applied ones
            seen = (i0, i1) if linear else (i1,)
            for j in range(i_rc.shape[1]):
                lo, hi = min(i_rc[k - 1, j], *seen), max(i_rc[k - 1, j], *seen)
                tau = 0.
                if linear and dt > 0:
                    tau = abs(i1 - i0) / dt * 2e4
                tol = 1e-9 + 1e-9 * (hi - lo) + 1e-13 * tau
                require(lo - tol <= i_rc[k, j] <= hi + tol, f'current of RC {j} out of range {at}: {i_rc[k, j]}, '
                                                            f'range ({lo}, {hi})')
                if all(i == 0 for i in seen):
                    require(abs(i_rc[k, j]) <= abs(i_rc[k - 1, j]) + 1e-12, f'current of RC {j} grows at rest {at}')

            # Hysteresis: within the envelope, toward the side of the current
            m = ref.table(case['asoh']['h0'], b, soc[k - 1])
            require(abs(hyst[k]) <= max(abs(hyst[k - 1]), m) + 1e-9, f'hysteresis leaves its envelope {at}: {hyst[k]}')
            if all(i >= 0 for i in used) and not rest:
                lo, hi = min(hyst[k - 1], m), max(hyst[k - 1], m)
                require(lo - 1e-9 <= hyst[k] <= hi + 1e-9, f'hysteresis does not move toward the charge side {at}')
            if all(i <= 0 for i in used) and not rest:
                lo, hi = min(hyst[k - 1], -m), max(hyst[k - 1], -m)
                require(lo - 1e-9 <= hyst[k] <= hi + 1e-9, f'hysteresis does not move toward the discharge side {at}')
            gamma = ref.pick(case['asoh']['h0']['gamma'], b)
            if gamma * abs(charge) / qt > 1e-3 and not rest and (not linear or i0 * i1 >= 0):
                target = m if sum(used) > 0 else -m
                gap = abs(hyst[k - 1] - target)
                require(gap < 1e-6 or abs(hyst[k] - target) < gap, f'hysteresis does not move {at}')
                most = gap * np.exp(-0.5 * gamma * abs(charge) / qt) + 1e-9  # Half of the rate, as not all charge is stored
                require(abs(hyst[k] - target) <= most, f'hysteresis is far from its envelope {at}: {hyst[k]}, not {target}')
            note('rest' if rest else 'charge' if min(used) >= 0 else 'discharge' if max(used) <= 0 else 'flip')
        signs = {ref.sgn(i) for i in cur}
        if min(soc) < 0 or max(soc) > 1:
            note('beyond empty or full')
        if len(signs) > 1 and len(hist) > 2:
            note('mixed', nontrivial=True)
    note(case['behavior'])


CLAUSES = [Clause('history', cases, check, 'more than one step and more than one direction of current', 1000, 40000)]
