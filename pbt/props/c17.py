"""The unscented filter on linear systems"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian

from .. import gen, kfref
from ..core import Clause, close, same


def check(case, note, view=False):
    ukf, model, full, first, kwargs = kfref.make_filter(case, view)
    given = {k: v.copy() for k, v in kwargs.items() if isinstance(v, np.ndarray)}
    mean, cov, u_old = np.array(case['mean']), np.array(case['cov']), np.array(case['u'])
    m = model.mats
    c, d = (np.eye(len(mean)), np.zeros((len(mean), len(u_old)))) if view else (m['C'], m['D'])
    # The weights of the points are large if their spread is small, and so are rounding errors
    big = 2 * len(mean) + len(c)
    amp = 1 + big / (full['alpha'] ** 2 * (big + (3 - big if full['kappa'] == 'automatic' else full['kappa'])))
    for t, s in enumerate(case['steps']):
        u, y = np.array(s['u']), np.array(s['y'])
        exp = kfref.kalman_step(m['A'], m['B0'] @ u_old + m['B1'] @ u, c, d @ u, mean, cov, full['q'], full['r'], y)
        new_u, new_y = DeltaDistribution(mean=u.copy()), DeltaDistribution(mean=y.copy())
        x_out, y_out = ukf.step(new_controls=new_u, measurements=new_y)
        same(new_u.get_mean(), u, 'controls given by the caller')
        same(new_y.get_mean(), y, 'measurements given by the caller')
        # Rounding: the gain amplifies the errors of the predicted covariances
        size = 1 + max(np.abs(v).max() for v in (mean, u_old, u, y, exp['x_mean'], exp['y_mean']))
        var = np.abs(exp['x_cov']).max() + np.abs(exp['y_cov']).max()
        eig = np.linalg.eigvalsh(exp['y_cov'])
        gain = 1 + np.linalg.norm(exp['gain'])
        round_mean = 1e-13 * amp * size
        round_var = 1e-13 * amp * (var + size * np.sqrt(var)) + amp * round_mean ** 2
        inverse = 1e-15 * eig.max() / eig.min()
        round_gain = round_var * gain / eig.min() + inverse * gain
        tol_cov = 100 * (round_var * gain ** 2 * (1 + round_var / eig.min()) + inverse * var * gain)
        tol_mean = 100 * (gain * round_mean + round_gain * np.abs(y - exp['y_mean']).max())
        close(y_out.get_mean(), exp['y_mean'], f'step {t}: predicted output', 1e-9, 10 * round_mean)
        close(y_out.get_covariance(), exp['y_cov'], f'step {t}: covariance of the output', 1e-9, 100 * round_var)
        if tol_cov > 1e-4 * (1 + var) or tol_mean > 1e-4 * size:
            note('badly conditioned')
            return
        close(x_out.get_mean(), exp['mean'], f'step {t}: mean of the state', 1e-9, tol_mean)
        close(x_out.get_covariance(), exp['cov'], f'step {t}: covariance of the state', 1e-9, tol_cov)
        same(ukf.hidden.get_mean(), x_out.get_mean(), 'mean held by the filter')
        same(ukf.hidden.get_covariance(), x_out.get_covariance(), 'covariance held by the filter')
        mean, cov, u_old = x_out.get_mean(), x_out.get_covariance(), u
        # Whatever is done to what was returned or given has no effect
        for dist in (x_out, y_out, new_u, new_y):
            dist.mean[...] = 1e6
        for dist in (x_out, y_out):
            dist.covariance[...] = -1.
        same(ukf.hidden.get_mean(), mean, 'mean held by the filter after the returned one was changed')
        same(ukf.hidden.get_covariance(), cov, 'covariance held by the filter after the returned one was changed')
        if t == 0:
            same(first['hidden'].get_mean(), case['mean'], 'initial mean given by the caller')
            same(first['hidden'].get_covariance(), case['cov'], 'initial covariance given by the caller')
            same(first['controls'].get_mean(), case['u'], 'initial controls given by the caller')
            for k, v in given.items():
                same(kwargs[k], v, f'{k} given by the caller')
                kwargs[k][...] = 1e3
            first['hidden'].mean[...] = 1e3
            first['hidden'].covariance[...] = 1e3
            first['controls'].mean[...] = 1e3
    t = case['tuning']
    note('automatic kappa' if t['kappa'] == 'automatic' else 'kappa', f'{len(mean)} states, {len(c)} outputs',
         'default noise' if case['q'] is None or case['r'] is None else 'noise',
         'small alpha' if full['alpha'] < 0.02 else 'alpha', nontrivial=len(case['steps']) > 1 and len(mean) > 1)


def check_view(case, note):
    """A model which returns the states it is given as its outputs"""
    check(case, note, view=True)


# --- Units
@st.composite
def unit_cases(draw):
    case = draw(kfref.runs(tuning=st.just({'alpha': None, 'beta': None, 'kappa': None})))
    n, m = len(case['mean']), len(case['steps'][0]['y'])
    case['q'] = case['q'] or draw(kfref.spd(n))
    case['r'] = case['r'] or draw(kfref.spd(m))
    power = st.integers(-12, 12)
    case['units'] = {'x': [2. ** draw(power) for _ in range(n)], 'y': [2. ** draw(power) for _ in range(m)]}
    return case


def check_units(case, note):
    """Outcomes do not depend on the units of states and outputs, whose magnitudes may be very different"""
    sx, sy = np.array(case['units']['x']), np.array(case['units']['y'])
    other = kfref.convert(case, sx, sy)
    ukf, model, full, _, _ = kfref.make_filter(case)
    again, _, _, _, _ = kfref.make_filter(other)
    mean, cov, u_old, m = np.array(case['mean']), np.array(case['cov']), np.array(case['u']), model.mats
    for t, (s, s2) in enumerate(zip(case['steps'], other['steps'])):
        u, y = np.array(s['u']), np.array(s['y'])
        exp = kfref.kalman_step(m['A'], m['B0'] @ u_old + m['B1'] @ u, m['C'], m['D'] @ u, mean, cov, full['q'], full['r'], y)
        size = 1 + max(np.abs(v).max() for v in (mean, u_old, u, y, exp['x_mean'], exp['y_mean']))
        var = 1 + np.abs(exp['x_cov']).max() + np.abs(exp['y_cov']).max()
        eig = np.linalg.eigvalsh(exp['y_cov'])
        gain = 1 + np.linalg.norm(exp['gain'])
        tol = 1e-12 * (size + var) * gain ** 2 * (1 + var / eig.min()) * size
        if tol > 1e-4:
            note('badly conditioned')
            return
        out = [f.step(new_controls=DeltaDistribution(mean=u.copy()), measurements=DeltaDistribution(mean=np.array(v)))
               for f, v in [(ukf, y), (again, s2['y'])]]
        (x1, y1), (x2, y2) = out
        for got, what in [((x1.get_mean(), x1.get_covariance()), 'in these units'),
                          ((x2.get_mean() / sx, x2.get_covariance() / np.outer(sx, sx)), 'in other units')]:
            close(got[0], exp['mean'], f'step {t}: mean of the state {what}', 1e-9, tol)
            close(got[1], exp['cov'], f'step {t}: covariance of the state {what}', 1e-9, tol)
        close(y2.get_mean() / sy, exp['y_mean'], f'step {t}: predicted output in other units', 1e-9, tol)
        close(y2.get_covariance() / np.outer(sy, sy), exp['y_cov'], f'step {t}: covariance of the output in other units', 1e-9, tol)
        mean, cov, u_old = x1.get_mean(), x1.get_covariance(), u
    ratio = max(sy) / min(sy)
    note(f'{len(sy)} outputs', f'ratio {"1" if ratio == 1 else "<100" if ratio < 100 else ">100"}', nontrivial=ratio > 100)


@st.composite
def initial_cases(draw):
    case = draw(kfref.runs(steps=2))
    case['late'] = draw(st.booleans())
    return case


def check_initial(case, note):
    """Objects given to the filter may be changed by the caller as soon as it is made"""
    a, _, _, first, kwargs = kfref.make_filter(case)
    b, _, _, _, _ = kfref.make_filter(case)
    first['hidden'].mean[...] = 1e3
    first['hidden'].covariance[...] *= 100.
    first['controls'].mean[...] = -1e3
    for v in kwargs.values():
        if isinstance(v, np.ndarray):
            v *= 100.
    for s in case['steps']:
        out = [f.step(new_controls=DeltaDistribution(mean=np.array(s['u'])),
                      measurements=MultivariateGaussian(mean=np.array(s['y']), covariance=np.eye(len(s['y'])))
                      if case['late'] else DeltaDistribution(mean=np.array(s['y']))) for f in (a, b)]
        for p, q in zip(*out):
            same(p.get_mean(), q.get_mean(), 'mean from filters made with equal objects')
            same(p.get_covariance(), q.get_covariance(), 'covariance from filters made with equal objects')
    note(nontrivial=len(case['steps']) > 1)


CLAUSES = [
    Clause('kalman', kfref.runs(repeat=gen.once_or_many), check, 'several steps and states', 2000, 80000),
    Clause('singular', kfref.runs(singular='rank'), check, 'several steps and states', 600, 20000),
    Clause('units', unit_cases, check_units, 'outputs of very different magnitude', 800, 30000),
    Clause('isolation', initial_cases(), check_initial, 'several steps', 300, 10000),
    Clause('view', kfref.runs(), check_view, 'several steps and states', 0, 0),
]
ASSUMPTIONS = ['Models return new arrays (see known_findings.txt for one which does not)',
               'Accuracy is required up to rounding errors, which the weights amplify for small alpha']
