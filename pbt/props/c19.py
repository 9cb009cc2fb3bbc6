"""The unscented filter on nonlinear systems"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UKFTuningParameters, UnscentedKalmanFilter

from .. import gen, kfref
from ..core import Clause, close, raises, require, same


@st.composite
def cases(draw):
    tuning = st.fixed_dictionaries({
        'alpha': st.one_of(st.none(), st.just(1.), gen.num(0.1, 1., 3), gen.lognum(0.02, 1.)),
        'beta': st.one_of(st.none(), gen.num(0., 5., 3), st.just(0.)),
        'kappa': st.one_of(st.none(), st.just('automatic'), gen.num(0., 5., 3), gen.num(-0.8, 0., 3))})
    case = draw(kfref.runs(nonlinear=True, tuning=tuning, lo=0.05, hi=1., steps=4, repeat=gen.once_or_many))
    case['gain'] = draw(st.one_of(st.none(), gen.num(0.5, 1.5, 3)))
    case['system']['returns'] = draw(st.sampled_from([None, None, None, 'kept', 'fixed', 'reset']))
    if draw(st.integers(0, 3)) == 0:
        case['mean'] = [int(np.round(v)) for v in case['mean']]
        case['u'] = [int(np.round(v)) for v in case['u']]
        for s in case['steps']:
            s['y'] = [int(np.round(v)) for v in s['y']]
    return case


def check(case, note):
    ukf, model, full, first, kwargs = kfref.make_filter(case)
    mean, cov, u_old = np.array(case['mean']), np.array(case['cov']), np.array(case['u'])
    extra = {} if case['gain'] is None else {'gain': case['gain']}
    steps = 0
    for t, s in enumerate(case['steps']):
        u, y = np.array(s['u']), np.array(s['y'])
        if np.linalg.eigvalsh(cov).min() < 1e-10 * np.abs(cov).max():
            break
        exp = kfref.unscented_step(lambda x: model.f(x, u_old, u, **extra), lambda x: model.h(x, u, **extra),
                                   mean, cov, full['q'], full['r'], full['alpha'], full['beta'], full['kappa'], y)
        # How much the errors of the covariances matter
        low = np.linalg.eigvalsh((exp['y_cov'] + exp['y_cov'].T) / 2)
        var = np.abs(exp['x_cov']).max() + np.abs(exp['y_cov']).max()
        posterior = np.linalg.eigvalsh((exp['cov'] + exp['cov'].T) / 2)
        if np.abs(low).min() < 1e-6 * var:
            note('output covariance nearly singular')
            break
        model.seen.clear()
        new_u, new_y = DeltaDistribution(mean=u.copy()), DeltaDistribution(mean=y.copy())
        x_out, y_out = ukf.step(new_controls=new_u, measurements=new_y, **extra)
        require(len(model.seen) >= 2 and set(model.seen) == {case['gain'] or 1.},
                f'the model was given {model.seen} rather than {case["gain"]}')
        size = 1 + max(np.abs(v).max() for v in (mean, u_old, u, y))
        amp = exp['amplification']
        gain = 1 + np.abs(exp['gain']).max()
        tol = 1e-12 * amp * size * size
        close(y_out.get_mean(), exp['y_mean'], f'step {t}: predicted output', 1e-9, tol)
        close(y_out.get_covariance(), exp['y_cov'], f'step {t}: covariance of the output', 1e-8, 10 * tol * (1 + var))
        cond = var / np.abs(low).min()
        close(x_out.get_mean(), exp['mean'], f'step {t}: mean of the state', 1e-8, 10 * tol * gain * cond)
        if posterior.min() > 1e-9 * var:
            close(x_out.get_covariance(), exp['cov'], f'step {t}: covariance of the state', 1e-8,
                  100 * tol * gain ** 2 * cond * (1 + var))
        else:  # Negative weights may give something which has to be repaired
            eig, vec = np.linalg.eigh((exp['cov'] + exp['cov'].T) / 2)
            close(x_out.get_covariance(), (vec * np.clip(eig, 0., None)) @ vec.T, f'step {t}: repaired covariance', 1e-8,
                  100 * tol * gain ** 2 * cond * (1 + var))
            note('repaired')
        for now, then in model.given:
            same(now, then, f'step {t}: states which the model returned')
        same(ukf.hidden.get_mean(), x_out.get_mean(), 'mean held by the filter')
        same(ukf.hidden.get_covariance(), x_out.get_covariance(), 'covariance held by the filter')
        same(ukf.controls.get_mean(), u, 'controls held by the filter')
        mean, cov, u_old = x_out.get_mean(), x_out.get_covariance(), u
        steps += 1
    note(str(case['system']['returns']), 'whole numbers' if isinstance(case['mean'][0], int) else 'real numbers')
    note('extra argument' if extra else 'no extra argument', 'automatic' if case['tuning']['kappa'] == 'automatic' else
         'kappa', nontrivial=steps > 1)


# --- Rejections
@st.composite
def bad_cases(draw):
    case = draw(kfref.runs(steps=1))
    case['bad'] = draw(st.sampled_from(['alpha low', 'alpha high', 'beta', 'kappa', 'hidden', 'process size', 'sensor size',
                                        'process shape', 'sensor shape', 'none']))
    case['by'] = draw(gen.lognum(1e-6, 100.))
    case['more'] = draw(st.integers(1, 2))
    return case


def check_bad(case, note):
    kwargs, full = kfref.parameters(case)
    n, m = len(case['system']['A']), len(case['system']['C'])
    big = 2 * n + m
    hidden = MultivariateGaussian(mean=np.array(case['mean']), covariance=np.array(case['cov']))
    bad, by, more = case['bad'], case['by'], case['more']
    if bad == 'alpha low':
        kwargs['alpha_param'] = 0.001 * (1 - min(by, 2.)) if by < 1e-3 else -by
    elif bad == 'alpha high':
        kwargs['alpha_param'] = 1. + by
    elif bad == 'beta':
        kwargs['beta_param'] = -by
    elif bad == 'kappa':
        kwargs['kappa_param'] = float(-big) - (by if more > 1 else 0.)
    elif bad == 'hidden':
        hidden = MultivariateGaussian(mean=np.zeros(n + more), covariance=np.eye(n + more))
    elif bad == 'process size':
        kwargs['covariance_process_noise'] = np.eye(n + more)
    elif bad == 'sensor size':
        kwargs['covariance_sensor_noise'] = np.eye(m + more)
    elif bad == 'process shape':
        kwargs['covariance_process_noise'] = np.ones((n, n + more))
    elif bad == 'sensor shape':
        kwargs['covariance_sensor_noise'] = np.ones((m, m + more))

    def make():
        return UnscentedKalmanFilter(model=kfref.System(case['system']), initial_hidden=hidden,
                                     initial_controls=DeltaDistribution(mean=np.array(case['u'])), **kwargs)
    if bad == 'none':
        ukf = make()
        require(ukf.alpha_param == full['alpha'] and ukf.beta_param == full['beta'], 'tuning parameters')
        require(ukf.kappa_param == (3 - big if full['kappa'] == 'automatic' else full['kappa']), 'tuning parameter kappa')
    else:
        raises(make, f'{bad} {kwargs}')
    note(bad, nontrivial=bad != 'none')


def check_defaults(case, note):
    """The defaults are those documented"""
    require(UKFTuningParameters.defaults() == {'alpha_param': 1., 'kappa_param': 0., 'beta_param': 2.},
            f'defaults are {UKFTuningParameters.defaults()}')
    a = kfref.make_filter({**case, 'tuning': {'alpha': None, 'beta': None, 'kappa': None}})[0]
    b = kfref.make_filter({**case, 'tuning': {'alpha': 1., 'beta': 2., 'kappa': 0.}})[0]
    for s in case['steps']:
        out = [f.step(new_controls=DeltaDistribution(mean=np.array(s['u'])),
                      measurements=DeltaDistribution(mean=np.array(s['y']))) for f in (a, b)]
        for p, q in zip(*out):
            same(p.get_mean(), q.get_mean(), 'mean with default tuning')
            same(p.get_covariance(), q.get_covariance(), 'covariance with default tuning')
    note(nontrivial=True)


CLAUSES = [
    Clause('unscented', cases, check, 'several steps', 1500, 60000),
    Clause('rejections', bad_cases, check_bad, 'something is wrong', 600, 10000),
    Clause('defaults', kfref.runs(nonlinear=True, steps=2, lo=0.05, hi=1.), check_defaults, 'any', 40, 1000),
]
ASSUMPTIONS = ['Covariances are positive definite, so that their Cholesky factors define the sigma points']
