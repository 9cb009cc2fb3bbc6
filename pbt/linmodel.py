"""A cell model which is linear in transient states and health, with several outputs"""
import numpy as np
from hypothesis import strategies as st
from pydantic import Field

from moirae.models.base import (CellModel, GeneralContainer, HealthVariable, InputQuantities, ListParameter,
                                OutputQuantities, ScalarParameter)

from . import estgen as eg, gen


class Part(HealthVariable):
    w: ListParameter = Field(default=0.)


class Health(HealthVariable):
    a: ScalarParameter = Field(default=0.)
    part: Part = Field(default_factory=Part)
    b: ListParameter = Field(default=0.)


class State(GeneralContainer):
    s: ScalarParameter = 0.
    v: ListParameter = (0., 0.)


class Out(OutputQuantities):
    extra: ListParameter = (0., 0.)


class In(InputQuantities):
    more: ScalarParameter = 0.


NAMES = {'a': [0], 'part.w': [1, 2], 'b': [3, 4]}  # Positions in the vector of all health parameters
LONG = {'a': ['a'], 'part.w': ['part.w[0]', 'part.w[1]'], 'b': ['b[0]', 'b[1]']}


class Linear(CellModel):
    def __init__(self, case):
        self.case = case
        self.m = {k: np.array(v) for k, v in case['m'].items()}
        p = case['p']
        self.asoh = Health(a=p[0], part=Part(w=np.array(p[1:3])), b=np.array(p[3:5]))
        self.asoh.mark_all_updatable()
        self.state = State(s=case['x'][0], v=np.array(case['x'][1:]))
        self.num_states = 3
        cols = [c for n in case['names'] for c in NAMES[n]]
        self.fixed = [c for c in range(5) if c not in cols]
        self.cols = cols
        self.selected = [0, 1, 2] + [3 + c for c in cols]
        self.names = ('s', 'v[0]', 'v[1]') + tuple(x for n in case['names'] for x in LONG[n])

    @staticmethod
    def _all(asoh):
        return asoh.get_parameters(['a', 'part.w', 'b'])

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        m = self.m
        out = (transient_state.to_numpy() @ m['F'].T + self._all(asoh) @ m['G'].T + previous_inputs.to_numpy() @ m['B0'].T +
               new_inputs.to_numpy() @ m['B1'].T)
        return State(s=out[:, :1], v=out[:, 1:])

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        m = self.m
        out = transient_state.to_numpy() @ m['H'].T + self._all(asoh) @ m['K'].T + new_inputs.to_numpy() @ m['D'].T
        return Out(terminal_voltage=out[:, :1], extra=out[:, 1:])

    def input(self, k):
        t, i, more = self.case['u'][k]
        return In(time=t, current=i, more=more)

    def output(self, k):
        y = self.case['y'][k]
        return Out(terminal_voltage=y[0], extra=np.array(y[1:]))

    def joint_matrices(self):
        m, n = self.m, 3 + len(self.cols)
        a, c = np.eye(n), np.zeros((3, n))
        a[:3, :3], a[:3, 3:] = m['F'], m['G'][:, self.cols]
        c[:, :3], c[:, 3:] = m['H'], m['K'][:, self.cols]
        return a, c

    def shift(self, k):
        m, p = self.m, np.array(self.case['p'])[self.fixed]
        s = m['G'][:, self.fixed] @ p + m['B0'] @ self.case['u'][k - 1] + m['B1'] @ self.case['u'][k]
        return np.concatenate([s, np.zeros(len(self.cols))])

    def out_shift(self, k):
        return self.m['K'][:, self.fixed] @ np.array(self.case['p'])[self.fixed] + self.m['D'] @ self.case['u'][k]


def size(case):
    return 3 + sum(len(NAMES[n]) for n in case['names'])


def controls(case):
    return 3


def outputs(case):
    return 3


@st.composite
def problems(draw, max_steps=4, min_names=1):
    def mat(rows, cols, s=1.):
        return [[draw(gen.num(-s, s, 3)) for _ in range(cols)] for _ in range(rows)]
    case = {'m': {'F': mat(3, 3, 0.8), 'G': mat(3, 5, 0.5), 'B0': mat(3, 3, 0.5), 'B1': mat(3, 3, 0.5), 'H': mat(3, 3),
                  'K': mat(3, 5), 'D': mat(3, 3)},
            'x': mat(1, 3, 3.)[0], 'p': mat(1, 5, 3.)[0],
            'names': draw(st.lists(st.sampled_from(sorted(NAMES)), min_size=min_names, max_size=3, unique=True))}
    steps = draw(st.integers(1, max_steps)) + 1
    case['u'], case['y'] = mat(steps, 3, 3.), mat(steps, 3, 5.)
    n = size(case)
    case['cov'] = draw(eg.covariance([1.] * n))
    case['q'] = draw(eg.covariance([0.3] * n))
    case['r'] = draw(eg.covariance([draw(st.sampled_from([0.1, 0.5]))] * 3))
    case['uncertain'] = draw(st.integers(0, 3)) == 0
    case['tuning'] = draw(eg.TUNING)
    return case
