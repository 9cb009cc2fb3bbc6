"""Polynomial parameters, against evaluation by hand"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, thevgen as tg
from ..core import Clause, close, raises, require

from moirae.models.thevenin.components import SOCPolynomialVariable
from moirae.models.thevenin.state import TheveninASOH


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4]))
    case = {'n': n, 'soc poly': draw(tg.poly(n, 3.)), 'both': draw(tg.both(n, 2.))}
    k = draw(st.integers(1, 5))
    points = 1 if draw(st.booleans()) else n
    case['points'] = [[draw(gen.num(-0.2, 1.2)), draw(gen.num(270., 330.))] for _ in range(points)]
    case['line'] = [[draw(gen.num(-0.2, 1.2)), draw(gen.num(270., 330.))] for _ in range(k)]
    case['new'] = [[draw(gen.num(-3., 3.)) for _ in r] for r in case['soc poly']]
    return case


def scale(spec, x):
    return 1 + max(sum(abs(c) * abs(x) ** k for k, c in enumerate(r)) for r in spec)


def check(case, note):
    soc_spec, spec = case['soc poly'], case['both']
    soc_only, both = SOCPolynomialVariable(coeffs=np.array(soc_spec)), tg.build_both(spec)
    size_o, size_b = len(soc_spec), max(len(v) for v in spec.values())
    line_s, line_t = np.array(case['line']).T
    for b in [*range(max(size_o, size_b)), size_o * 3 - 1]:
        # One value, and several values, for a chosen member
        exp_o = [tg.evaluate(soc_spec, b, s) for s in line_s]
        exp_b = [tg.evaluate_both(spec, b, s, t) for s, t in zip(line_s, line_t)]
        close(soc_only(line_s, batch_id=b), exp_o, f'polynomial of member {b}')
        close(np.squeeze(soc_only(float(line_s[0]), batch_id=b)), exp_o[0], f'polynomial of member {b} at one point')
        close(both(line_s, line_t, batch_id=b), exp_b, f'polynomials of member {b}')
        close(np.squeeze(both(float(line_s[0]), float(line_t[0]), batch_id=b)), exp_b[0],
              f'polynomials of member {b} at one point')
        close(np.squeeze(both(float(line_s[0]), line_t, b)), [tg.evaluate_both(spec, b, line_s[0], t) for t in line_t],
              f'polynomials of member {b} at one SOC') if len(line_t) > 1 else None

    # All members at once, with the same point or each with their own
    pts = case['points']
    n_o, n_b = (max(len(pts), k) for k in (size_o, size_b))
    s, t = np.array(pts).T
    exp_o = [tg.evaluate(soc_spec, b, pts[b % len(pts)][0]) for b in range(n_o)]
    exp_b = [tg.evaluate_both(spec, b, *pts[b % len(pts)]) for b in range(n_b)]
    close(soc_only(s), exp_o, 'polynomial of the batch')
    close(both(s, t), exp_b, 'polynomials of the batch')
    if len(pts) == 1:
        close(np.broadcast_to(np.squeeze(soc_only(pts[0][0])), (n_o,)), exp_o, 'polynomial of the batch at one point')
        close(np.broadcast_to(np.squeeze(both(*pts[0])), (n_b,)), exp_b, 'polynomials of the batch at one point')

    # After an update
    soc_only.set_value('coeffs', np.array(case['new']))
    close(soc_only(s), [tg.evaluate(case['new'], b, pts[b % len(pts)][0]) for b in range(n_o)], 'polynomial after an update')
    require(both.batch_size == size_b, f'size of the batch is {both.batch_size}, not {size_b}')
    note('one point' if len(pts) == 1 else 'a point per member', f'{size_b} members' if size_b < 2 else 'batch',
         nontrivial=size_b > 1 and len(spec['s'][0]) > 1)


@st.composite
def circuits(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    circuit = draw(tg.circuits(n, rc=draw(st.integers(0, 3))))
    wrong = draw(st.integers(0, 4))
    return {'circuit': circuit, 'wrong': wrong, 'extra': draw(tg.both(n, 1.)), 'soc': draw(gen.num(0., 1.)),
            'temp': draw(gen.num(280., 320.))}


def check_circuit(case, note):
    """Elements of circuits stay what they were made of"""
    spec = case['circuit']
    asoh = tg.build(spec)
    require(asoh.num_rc_elements == len(spec['c']), f'{asoh.num_rc_elements} RC elements')
    for kind in 'rc':
        elems = getattr(asoh, kind)
        require(len(elems) == len(spec[kind]), f'{len(elems)} {kind}')
        for k, (el, sp) in enumerate(zip(elems, spec[kind])):
            for b in range(max(len(v) for v in sp.values())):
                close(np.squeeze(el(case['soc'], case['temp'], b)), tg.evaluate_both(sp, b, case['soc'], case['temp']),
                      f'{kind}.{k} of member {b}')
    for b in range(len(spec['ocv'])):
        close(np.squeeze(asoh.ocv(case['soc'], b)), tg.evaluate(spec['ocv'], b, case['soc']), f'ocv of member {b}')
    if case['wrong'] != len(spec['c']) + 1:
        raises(lambda: TheveninASOH(r=[tg.build_both(case['extra'])] * case['wrong'],
                                    c=[tg.build_both(x) for x in spec['c']]), 'numbers of elements which do not match', ValueError)
    note(nontrivial=len(spec['c']) > 1)


CLAUSES = [Clause('polynomial', cases, check, 'several members, not constant', 600, 30000),
           Clause('circuit', circuits, check_circuit, 'several RC elements', 200, 10000)]
ASSUMPTIONS = ['Points are scalars or vectors']
