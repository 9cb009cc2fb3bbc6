"""Theoretical energy"""
import numpy as np
from hypothesis import strategies as st

from .. import ecmref as ref, gen
from ..core import Clause, close, require

limit = st.one_of(gen.num(0., 1.), st.sampled_from([0., 1.]), gen.num(-0.3, 1.3))  # The range may go beyond the table
JUMPS = ('nearest', 'nearest-up', 'previous', 'next', 'zero')


@st.composite
def cases(draw):
    batch = draw(gen.batches)
    asoh = draw(gen.circuit(batch, num_rc=0, has_c0=False, constant=True))
    limits = [draw(limit), draw(limit)]
    if any(asoh['ocv'][k]['style'] in ('previous', 'next') for k in ('ref', 'ent')):  # Those are undefined beyond the table
        limits = [min(max(x, 0.), 1.) for x in limits]
    return {'q_t': asoh['q_t'], 'ocv': asoh['ocv'], 'limits': limits, 'middle': draw(gen.num(0., 1.)),
            'temp': draw(st.one_of(st.none(), gen.num(-10., 60.), gen.num(-40., 80.))),
            'factor': draw(gen.num(0.1, 10.)), 'offset': draw(gen.num(-1., 1.))}


def build(case, q_t=None, offset=0.):
    asoh = ref.ECMASOH.provide_template(has_C0=False, num_RC=0)
    ocv = dict(case['ocv'])
    if offset:
        ocv['ref'] = {**ocv['ref'], 'vals': [[v + offset for v in r] for r in ocv['ref']['vals']]}
    return ref.ECMASOH(
        q_t=ref.MaxTheoreticalCapacity(base_values=ref.scalar(q_t or case['q_t'])), ocv=ref.OpenCircuitVoltage(
            ocv_ref=ref.ReferenceOCV(**ref._interp_kwargs(ocv['ref']), reference_temperature=ref.scalar(ocv['tref'])),
            ocv_ent=ref.EntropicOCV(**ref._interp_kwargs(ocv['ent']))),
        r0=asoh.r0)


_GAUSS = np.polynomial.legendre.leggauss(6)


def integral(spec, b, lo, hi):
    """Integral of a table, exact for piecewise polynomials, and a bound for the error of a 100-point trapezoid rule"""
    row = spec['vals'][b % len(spec['vals'])]
    pins = spec['pins'] or np.linspace(0, 1, len(row)).tolist()
    if len(row) == 1 or hi == lo:
        return row[0] * (hi - lo), 0.
    breaks = sorted({lo, hi, *[p for p in pins + [(a + c) / 2 for a, c in zip(pins, pins[1:])] if lo < p < hi]})
    total = 0.
    for a, c in zip(breaks, breaks[1:]):
        pts = (a + c) / 2 + (c - a) / 2 * _GAUSS[0]
        total += (c - a) / 2 * sum(w * ref.interpolate(row, pins, spec['style'], float(p))
                                   for w, p in zip(_GAUSS[1], pts))
    h = (hi - lo) / 99
    grid = np.array([ref.interpolate(row, pins, spec['style'], float(s)) for s in np.linspace(lo, hi, 200)])
    if spec['style'] in JUMPS:
        return total, h * float(np.sum(np.abs(np.diff(grid))))
    # Change of slope: bounds the error of both kinked and smooth functions
    return total, h * h * float(np.sum(np.abs(np.diff(grid, 2)))) / (h / 2) / 4 + 1e-9


def check(case, note):
    batch = ref.batch_of({k: case[k] for k in ('q_t', 'ocv')})
    asoh = build(case)
    lo, hi = sorted(case['limits'])
    temp = case['temp']

    def energy(a, limits, t=temp):
        e = np.asarray(a.get_theoretical_energy(soc_limits=tuple(limits), temperature=t))
        require(e.shape in ((1, 1), (batch, 1)), f'energy has shape {e.shape} for a batch of {batch}')
        return ref.expand(e, batch)

    whole = energy(asoh, case['limits'])
    qs = np.array([[ref.pick(case['q_t'], b)] for b in range(batch)])
    tols = np.zeros((batch, 1))
    for b in range(batch):
        val, tol = integral(case['ocv']['ref'], b, lo, hi)
        if temp is not None:
            ent, ent_tol = integral(case['ocv']['ent'], b, lo, hi)
            dt = temp - ref.pick(case['ocv']['tref'], b)
            val, tol = val + dt * ent, tol + abs(dt) * ent_tol
        tols[b] = tol * qs[b] * 1.5
        close(whole[b, 0], val * qs[b, 0], f'energy of member {b}', rtol=1e-7, atol=tols[b, 0] + 1e-9)

    # Relations
    close(energy(asoh, case['limits'][::-1]), whole, 'energy with limits exchanged', 1e-9, 1e-12)
    mid = lo + (hi - lo) * case['middle']
    parts = energy(asoh, (lo, mid)) + energy(asoh, (hi, mid))
    for b in range(batch):
        close(parts[b], whole[b], 'energy of two adjacent ranges', 1e-7, 2 * tols[b, 0] + 1e-9)
    scaled = build(case, q_t=[[r[0] * case['factor']] for r in case['q_t']])
    close(energy(scaled, case['limits']), whole * case['factor'], 'energy with capacity scaled', 1e-9, 1e-9)
    shifted = build(case, offset=case['offset'])
    close(energy(shifted, case['limits']), whole + case['offset'] * qs * (hi - lo), 'energy with voltage shifted', 1e-9,
          1e-8)
    if case['limits'] == [0., 1.] and temp is None:
        close(ref.expand(asoh.get_theoretical_energy(), batch), whole, 'energy with default arguments', 1e-12, 1e-12)
    note('batch' if batch > 1 else 'single', 'no temperature' if temp is None else 'temperature',
         case['ocv']['ref']['style'], nontrivial=hi > lo and len(case['ocv']['ref']['vals'][0]) > 1)


CLAUSES = [Clause('energy', cases, check, 'the range is not empty and the OCV depends on SOC', 1500, 40000)]
ASSUMPTIONS = ['Accuracy is required up to a bound on the error of a trapezoid rule with 100 points']
