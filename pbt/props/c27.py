"""Offline estimates against what the optimiser was given and returned"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult

from moirae.estimators.offline.loss import BaseLoss
from moirae.estimators.offline.scipy import ScipyMinimizer

from .. import estgen as eg, gen
from ..core import Clause, close, require, same
from . import c26


class Quadratic(BaseLoss):
    """A loss which may be negative or zero, and which records what it is asked for"""

    def setup(self, centre, scale, shape, offset, factor):
        self.args = [np.array(centre), np.array(scale), np.array(shape), offset, factor]
        self.asked = []
        return self

    def value(self, x):
        centre, scale, shape, offset, factor = self.args
        return factor * (float((shape * ((x - centre) / scale) ** 2).sum()) + offset)

    def __call__(self, x):
        require(np.ndim(x) == 2, f'candidates of {np.ndim(x)} dimensions')
        self.asked.append(np.array(x))
        return np.array([self.value(v) for v in x])


@st.composite
def cases(draw):
    case = draw(c26.cases())
    width = len(case['points'][0])

    def vector(lo, hi):
        return [draw(gen.num(lo, hi, 3)) for _ in range(width)]
    case['loss'] = {'centre': vector(-1., 1.), 'shape': vector(0.2, 3.),
                    'offset': draw(st.sampled_from([0., 0., 1., -3., 1e3])), 'factor': draw(st.sampled_from([1., 1e-3, 1e6, 1e-9]))}
    case['at start'] = draw(st.integers(0, 9)) == 0  # The loss of the initial guess is that of the centre
    far = draw(st.sampled_from([1., 1., 1., 60.]))  # Solutions need not be plausible
    case['answer'] = [far * x for x in vector(-1., 1.)]
    case['kwargs'] = draw(st.lists(st.sampled_from(['tol', 'bounds', 'options', 'callback', 'constraints']), unique=True,
                                   max_size=4))
    return case


def given(case, fit):
    loss = Quadratic(cell_model=fit.prob.model, asoh=fit.prob.asoh, transient_state=fit.prob.state, observations=fit.data)
    spec = case['loss']
    centre = fit.x0 if case['at start'] else fit.x0 + np.array(spec['centre']) * fit.sd
    return loss.setup(centre, fit.sd, spec['shape'], spec['offset'], spec['factor'])


def mapped(fit, states, asoh, x, what):
    """The results hold the solution, and other parameters are kept"""
    n, prob = fit.prob.num_states, fit.prob
    require(type(states) is type(prob.state) and type(asoh) is type(prob.asoh), f'{what}: types of the results')
    same(states.to_numpy(), x[None, :n], f'{what}: state')
    if prob.names:
        same(asoh.get_parameters(prob.names)[0], x[n:], f'{what}: health')
    for name in eg.health_names(prob.case['asoh']):
        if name not in prob.names:
            same(asoh.get_parameters([name])[0], eg.read(prob.case['asoh'], [name]), f'{what}: {name}, which is not fitted')
    require(list(asoh.updatable_names) == list(prob.names), f'{what}: names fitted {asoh.updatable_names}')


def check(case, note):
    """A stand-in for the optimiser, which records what it is given and gives any answer"""
    fit = c26.Fit(case)
    loss = given(case, fit)
    points = fit.x0 + np.array(case['points']) * fit.sd
    answer = fit.x0 + np.array(case['answer']) * fit.sd
    seen = {}

    def method(fun, x0, args=(), **kwargs):
        seen.update(kwargs, x0=np.array(x0), start=fun(np.array(x0)), values=[fun(p.copy()) for p in points])
        return OptimizeResult(x=answer.copy(), fun=fun(answer.copy()), success=True, status=0, nit=7, message='done')

    def callback(xk):
        pass
    every = {'tol': 0.123, 'bounds': [(-1e9, 1e9 + k) for k in range(len(answer))], 'options': {'mine': 3, 'other': 'a'},
             'callback': callback, 'constraints': ({'type': 'ineq', 'fun': lambda x: 1.},)}
    kwargs = {k: every[k] for k in case['kwargs']}
    minimiser = ScipyMinimizer(loss, method=method, **kwargs)
    snap = [loss.asoh.get_parameters(loss.asoh.all_names).tolist(), loss.state.to_numpy().tolist(), loss.get_x0().tolist()]

    def unchanged(what):
        require(snap == [loss.asoh.get_parameters(loss.asoh.all_names).tolist(), loss.state.to_numpy().tolist(),
                         loss.get_x0().tolist()], f'{what}: the initial guess of the objective changed')
    states, asoh, result = minimiser.estimate()
    same(seen['x0'], fit.x0, 'starting point given to the optimiser')
    for k, v in kwargs.items():
        if k == 'options':
            require(all(seen.get(a) == b for a, b in v.items()), f'options {v} did not reach the optimiser')
        elif k == 'bounds':
            found = seen[k]
            close(np.array([found.lb, found.ub]) if hasattr(found, 'lb') else np.array(found).T, np.array(v).T,
                  'bounds given to the optimiser')
        elif k == 'constraints':
            require(len(seen[k]) == 1, 'constraints did not reach the optimiser')
        elif k == 'tol':
            require(seen.get('tol') == v, f'tol: {seen.get("tol")} reached the optimiser')
        else:
            require(seen.get(k) is not None, f'{k} did not reach the optimiser')
    y0 = loss.value(fit.x0)
    true = np.array([loss.value(p) for p in points] + [loss.value(answer)])
    found = np.array(seen['values'] + [result.fun])
    if abs(y0) > 1e-12:
        close(seen['start'], y0 / abs(y0), 'objective of the initial guess', 1e-9, 0)
        close(found, true / abs(y0), 'objective', 1e-9, 1e-12)
    else:  # There is nothing to be relative to
        require(np.isfinite(found).all(), f'objective {found.tolist()}')
        for i in range(len(true)):
            for j in range(len(true)):
                if true[i] > true[j] * (1 + 1e-9) + 1e-15:
                    require(found[i] > found[j], 'order of the objective differs from that of the loss')
    require(type(result) is OptimizeResult and result.nit == 7, 'result of the optimiser')
    same(result.x, answer, 'solution in the result')
    mapped(fit, states, asoh, answer, 'result')
    unchanged('after the estimate')
    # The results do not share memory with the objective, and running again gives the same
    if fit.prob.names:
        asoh.update_parameters(np.full((1, len(fit.prob.p0)), 0.5))
    states.from_numpy(np.full((1, fit.prob.num_states), 0.25))
    unchanged('after changing the results')
    again = minimiser.estimate()
    mapped(fit, again[0], again[1], answer, 'result of a second estimate')
    note(*case['kwargs'], f'{len(fit.prob.names)} parameters', 'loss is zero' if abs(y0) <= 1e-12 else
         'loss is negative' if y0 < 0 else 'loss is positive', nontrivial=len(fit.prob.names) > 0 and len(case['kwargs']) > 0)


# --- Optimisers of SciPy
@st.composite
def fits(draw):
    case = draw(c26.cases())
    case['maxiter'] = draw(st.integers(1, 30))
    case['bounded'] = draw(st.booleans())
    case['shift'] = [draw(gen.num(-1., 1., 3)) for _ in case['points'][0]]
    case['quadratic'] = draw(st.booleans())
    # Only the simplex method never gives up the best point, whatever the loss
    case['method'] = draw(st.sampled_from(['Nelder-Mead', 'BFGS', 'L-BFGS-B', None] if case['quadratic'] else ['Nelder-Mead']))
    case['loss'] = {'centre': case['shift'], 'shape': [1.] * len(case['shift']), 'offset': draw(st.sampled_from([0., 2.])),
                    'factor': 1.}
    case['at start'] = False
    return case


def check_fit(case, note):
    fit = c26.Fit(case)
    if case['quadratic']:
        loss = given(case, fit)
    else:  # Data are those of another cell
        n = fit.prob.num_states
        other = fit.x0 + np.array(case['shift']) * fit.sd
        fit.data.tables['raw_data']['voltage'] = fit.voltages(other[:n], other[n:])
        loss = fit.objective
    kwargs = {'options': {'maxiter': case['maxiter']}}
    if case['method'] is not None:
        kwargs['method'] = case['method']
    if case['bounded'] and case['method'] in ('Nelder-Mead', 'L-BFGS-B'):
        kwargs['bounds'] = [(x - 2 * s, x + 2 * s) for x, s in zip(fit.x0, fit.sd)]
    before = loss.get_x0().copy()
    states, asoh, result = ScipyMinimizer(loss, **kwargs).estimate()
    if not np.isfinite(result.fun):
        note('not finite')
        return
    require(result.nit <= case['maxiter'], f'{result.nit} iterations, at most {case["maxiter"]} were asked for')
    y0, y = loss(fit.x0[None, :])[0], loss(np.array(result.x)[None, :])[0]
    require(y <= y0 * (1 + 1e-9) + 1e-14, f'loss {y} is worse than that of the initial guess, {y0}')
    if y0 > 1e-12:
        close(result.fun, y / y0, 'reported objective', 1e-6, 1e-9)
    if 'bounds' in kwargs:
        for x, (lo, hi) in zip(result.x, kwargs['bounds']):
            require(lo - 1e-9 * abs(lo) <= x <= hi + 1e-9 * abs(hi), f'{x} is not within {lo} and {hi}')
    mapped(fit, states, asoh, np.array(result.x), 'result')
    same(loss.get_x0(), before, 'initial guess of the objective')
    note(str(case['method']), 'bounds' if 'bounds' in kwargs else 'no bounds', 'quadratic' if case['quadratic'] else 'circuit',
         'better' if y < 0.9 * y0 else 'about the same', nontrivial=y < 0.9 * y0)


CLAUSES = [
    Clause('mapping', cases, check, 'health is fitted, with options', 500, 15000),
    Clause('optimiser', fits, check_fit, 'the fit is better than the initial guess', 150, 5000),
]
ASSUMPTIONS = ['Optimisers of SciPy pass arguments on as documented', 'Losses of circuits are minimised by Nelder-Mead']
