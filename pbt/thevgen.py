"""Specifications of Thevenin circuits, and their values by hand"""
import numpy as np
from hypothesis import strategies as st

from . import gen, thevenin_stub  # noqa: F401

from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient

RANGES = {'capacity': (0.5, 20.), 'mass': (0.05, 2.), 'c_p': (500., 1500.), 'h_thermal': (1., 50.), 'a_therm': (0.1, 2.)}


@st.composite
def poly(draw, n, size=1.):
    return gen.rows(draw, gen.num(-size, size), n, draw(st.integers(1, 4)))


@st.composite
def both(draw, n, size=1.):
    """Polynomials in SOC and temperature"""
    width = draw(st.integers(1, 3))
    count = n if n > 1 and draw(st.booleans()) else 1
    return {'t_ref': gen.rows(draw, gen.num(280., 320.), n), 's': draw(poly(n, size)),
            't': [[draw(gen.num(-size, size)) * 0.02 ** k for k in range(width)] for _ in range(count)]}


@st.composite
def circuits(draw, n, rc=None):
    rc = draw(st.integers(0, 3)) if rc is None else rc
    return {**{k: gen.rows(draw, gen.num(*r), n) for k, r in RANGES.items()}, 'ocv': draw(poly(n, 3.)),
            'r': [draw(both(n, 0.1)) for _ in range(rc + 1)], 'c': [draw(both(n, 50.)) for _ in range(rc)]}


def build_both(spec):
    return SOCTempPolynomialVariable(t_ref=np.array(spec['t_ref']), soc_coeffs=np.array(spec['s']), t_coeffs=np.array(spec['t']))


def build(spec):
    return TheveninASOH(**{k: np.array(spec[k]) for k in RANGES}, ocv=SOCPolynomialVariable(coeffs=np.array(spec['ocv'])),
                        r=tuple(build_both(x) for x in spec['r']), c=tuple(build_both(x) for x in spec['c']))


def build_transient(spec):
    return TheveninTransient(soc=np.array(spec['soc']), temp=np.array(spec['temp']),
                             eta=np.array(spec['eta']).reshape(len(spec['eta']), -1))


def build_inputs(spec):
    return TheveninInput(**{k: np.array(v) for k, v in spec.items()})


def row(rows, b):
    return rows[b % len(rows)]


def evaluate(rows, b, x):
    return sum(c * x ** k for k, c in enumerate(row(rows, b)))


def evaluate_both(spec, b, soc, temp):
    return evaluate(spec['s'], b, soc) + evaluate(spec['t'], b, temp - row(spec['t_ref'], b)[0])


def member(spec, b):
    """What a member of the batch is made of, by hand"""
    if isinstance(spec, dict):
        return {k: member(v, b) for k, v in spec.items()}
    if spec and isinstance(spec[0], dict):
        return [member(x, b) for x in spec]
    return [row(spec, b)] if spec else spec
