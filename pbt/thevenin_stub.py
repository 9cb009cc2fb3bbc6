"""Stand-in for the external ``thevenin`` solver

It is not installed here, and what matters is what the adapter hands to it and makes of its answer. The made-up answer depends
on everything which a solver is given.
"""
import sys
import types

import numpy as np

PROBES = [(0.3, 291.), (0.85, 312.)]


class Model:
    def __init__(self, params):
        self.params = dict(params)
        n = self.params['num_RC_pairs']
        self._ptr = {'soc': 0, 'T_cell': 1, 'eta_j': np.arange(2, 2 + n)}
        self._sv0 = np.concatenate([[float(params['soc0']), 1.], np.zeros(n)])

    def run(self, exp):
        return Solution(self, exp)


class Experiment:
    def __init__(self):
        self.steps = []

    def add_step(self, mode, value, tspan, limits=None, **kwargs):
        self.steps.append((mode, value, tspan))


def describe(params):
    """Numbers which tell what a model is made of"""
    n = params['num_RC_pairs']
    out = [float(params[k]) for k in ('capacity', 'mass', 'Cp', 'T_inf', 'h_therm', 'A_therm')]
    out.append(float(bool(params['isothermal'])))
    for soc, temp in PROBES:
        out.append(float(np.squeeze(params['ocv'](soc))))
        out.extend(float(np.squeeze(params[f'R{k}'](soc, temp))) for k in range(n + 1))
        out.extend(float(np.squeeze(params[f'C{k + 1}'](soc, temp))) for k in range(n))
    return out


def answer(eta, soc, current, dt, values, k):
    """Made-up dynamics, such that every output depends on every input. ``k``: which time"""
    f = k / 2
    a = sum(np.cos(1. + j) * v for j, v in enumerate(values))
    b = sum(np.sin(2. + 3. * j) * v for j, v in enumerate(values))
    return {'soc': soc - f * 1e-4 * current * dt + 1e-3 * a * f, 'temperature_K': 290. + f * 0.001 * dt + 0.1 * current + soc + b,
            **{f'eta{j + 1}_V': e * (1 - 0.25 * f) - f * (j + 1) * 0.01 * current + f * a * b / (j + 3.) + dt * 1e-4
               for j, e in enumerate(eta)}}


class Solution:
    def __init__(self, model, exp):
        (mode, value, tspan), = exp.steps
        assert mode == 'current_A', f'mode {mode}'
        current = float(np.squeeze(value(0.) if callable(value) else value))
        dt = tspan[0] if isinstance(tspan, tuple) else tspan[-1]
        values = describe(model.params)
        out = [answer(model._sv0[model._ptr['eta_j']], model._sv0[0], current, dt, values, k) for k in range(3)]
        self.vars = {n: np.array([float(o[n]) for o in out]) for n in out[0]}


def install():
    mod = types.ModuleType('thevenin')
    mod.Model, mod.Experiment = Model, Experiment
    sys.modules['thevenin'] = mod


install()
