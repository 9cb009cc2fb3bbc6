"""Models for filters, an exact Kalman filter, and a textbook unscented Kalman filter"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter

from . import gen


class System(ModelWrapper):
    """x' = A x + B0 u_old + B1 u_new + N(x, u_old, u_new), y = C x + D u_new + M(x, u_new)

    The nonlinear terms are present if their strength is not zero
    """

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.mats = {k: np.array(spec[k], dtype=float).reshape(spec['shapes'][k]) for k in ('A', 'B0', 'B1', 'C', 'D')}
        self.view = spec.get('view', False)
        self.returns = spec.get('returns')
        self.seen, self.given = [], []

    @property
    def num_hidden_dimensions(self):
        return len(self.mats['A'])

    @property
    def num_output_dimensions(self):
        return len(self.mats['C'])

    def f(self, x, u0, u1, gain=1.):
        m, s = self.mats, self.spec['nonlinear']
        if self.returns == 'reset':  # Always the same state, as whole numbers
            return np.arange(len(x)) - 1
        lin = m['A'] @ x + m['B0'] @ u0 + m['B1'] @ u1
        if s:
            lin = lin + s * np.sin(x + u1.sum()) * (1 + 0.1 * u0.sum()) + 0.5 * s * x * np.roll(x, 1) / (1 + x * x)
        return gain * lin

    def h(self, x, u1, gain=1.):
        m, s = self.mats, self.spec['nonlinear']
        lin = m['C'] @ x + m['D'] @ u1
        if s:
            lin = lin + s * (np.cos(x.sum() + u1.sum()) + 0.2 * x[0] ** 2)
        return gain * lin

    def update_hidden_states(self, hidden_states, previous_controls, new_controls, gain=1.):
        self.seen.append(gain)
        out = np.array([self.f(x, previous_controls, new_controls, gain) for x in hidden_states])
        if self.returns == 'kept':  # The model may look at what it returned later on
            self.given.append((out, out.copy()))
        elif self.returns == 'fixed':
            out.setflags(write=False)
        return out

    def predict_measurement(self, hidden_states, controls, gain=1.):
        self.seen.append(gain)
        if self.view:  # All states are observed
            return hidden_states
        return np.array([self.h(x, controls, gain) for x in hidden_states])


# --- References
def unscented_step(f, h, mean, cov, q, r, alpha, beta, kappa, y):
    """One step of the filter on the state augmented with both noises, written sample by sample"""
    n, m = len(mean), len(y)
    big = n + n + m
    if kappa == 'automatic':
        kappa = 3 - big
    aug = np.zeros((big, big))
    aug[:n, :n], aug[n:2 * n, n:2 * n], aug[2 * n:, 2 * n:] = cov, q, r
    root = np.linalg.cholesky(aug)
    spread = alpha * np.sqrt(big + kappa)
    centre = np.concatenate([mean, np.zeros(n + m)])
    points = [centre] + [centre + spread * root[:, i] for i in range(big)] + \
        [centre - spread * root[:, i] for i in range(big)]
    lam = alpha ** 2 * (big + kappa) - big
    wm = [lam / (big + lam)] + [1 / (2 * (big + lam))] * (2 * big)
    wc = [wm[0] + 1 - alpha ** 2 + beta] + wm[1:]
    xs = [f(p[:n]) + p[n:2 * n] for p in points]
    ys = [h(x) + p[2 * n:] for x, p in zip(xs, points)]
    x_mean, y_mean = sum(w * x for w, x in zip(wm, xs)), sum(w * v for w, v in zip(wm, ys))
    p_xx = sum(w * np.outer(x - x_mean, x - x_mean) for w, x in zip(wc, xs))
    p_yy = sum(w * np.outer(v - y_mean, v - y_mean) for w, v in zip(wc, ys))
    p_xy = sum(w * np.outer(x - x_mean, v - y_mean) for w, x, v in zip(wc, xs, ys))
    gain = p_xy @ np.linalg.inv(p_yy)
    return {'mean': x_mean + gain @ (y - y_mean), 'cov': p_xx - gain @ p_yy @ gain.T, 'y_mean': y_mean, 'y_cov': p_yy,
            'x_cov': p_xx, 'gain': gain, 'amplification': abs(wm[0]) + 1}


def kalman_step(a, shift, c, out_shift, mean, cov, q, r, y):
    """One step of the exact filter for a linear system"""
    x = a @ mean + shift
    p = a @ cov @ a.T + q
    s = c @ p @ c.T + r
    gain = np.linalg.solve(s.T, (p @ c.T).T).T
    y_mean = c @ x + out_shift
    left = np.eye(len(x)) - gain @ c
    # Joseph's form
    return {'mean': x + gain @ (y - y_mean), 'cov': left @ p @ left.T + gain @ r @ gain.T, 'y_mean': y_mean, 'y_cov': s,
            'x_mean': x, 'x_cov': p, 'gain': gain}


# --- Generation
@st.composite
def spd(draw, n, lo=0.05, hi=5., singular=False, scale=True):
    """Covariances: standard deviations and a correlation"""
    root = [[draw(gen.num(-1., 1., 3)) if j < i else (1. if i == j else 0.) for j in range(n)] for i in range(n)]
    if draw(st.booleans()):
        root = np.eye(n).tolist()
    sd = [draw(gen.lognum(lo, hi)) for _ in range(n)]
    if singular == 'rank':  # Some combinations of the states are known exactly
        rank = draw(st.integers(0, n))
        root = [row[:rank] for row in np.array([[draw(gen.num(-1., 1., 3)) for _ in range(n)] for _ in range(n)]).tolist()]
    elif singular:
        sd = [s * draw(st.sampled_from([1., 1., 0.])) for s in sd]
    out = np.diag(sd) @ np.array(root, dtype=float).reshape(n, -1 if n and len(root[0]) else 0)
    return (out @ out.T).tolist()


@st.composite
def systems(draw, nonlinear=False, n=None, m=None):
    n = draw(st.sampled_from([1, 2, 3, 4] * 4 + [6])) if n is None else n
    m = draw(st.sampled_from([1, 2, 3] * 5 + [5])) if m is None else m
    k = draw(st.integers(1, 3))

    def mat(rows, cols, lo=-1., hi=1.):
        return [[draw(gen.num(lo, hi, 3)) for _ in range(cols)] for _ in range(rows)]
    spec = {'A': mat(n, n), 'B0': mat(n, k), 'B1': mat(n, k), 'C': mat(m, n), 'D': mat(m, k),
            'shapes': {'A': [n, n], 'B0': [n, k], 'B1': [n, k], 'C': [m, n], 'D': [m, k]},
            'nonlinear': draw(gen.num(0.05, 0.5, 3)) if nonlinear else 0}
    return spec


tunings = st.fixed_dictionaries({
    'alpha': st.one_of(st.none(), st.just(1.), gen.num(0.05, 1., 3), gen.num(0.05, 1., 3), gen.num(0.05, 1., 3),
                       gen.lognum(0.02, 1.), gen.lognum(0.001, 1.), st.just(0.001)),
    'beta': st.one_of(st.none(), gen.num(0., 5., 3), st.just(0.), st.just(2.)),
    'kappa': st.one_of(st.none(), st.just('automatic'), gen.num(0., 5., 3), st.just(0.), gen.num(-1., 0., 3))})


@st.composite
def runs(draw, nonlinear=False, singular=False, steps=5, tuning=tunings, lo=0.05, hi=5., repeat=st.just(1)):
    """A system, its noises, a first estimate, and a sequence of controls and measurements"""
    system = draw(systems(nonlinear))
    n, m, k = len(system['A']), len(system['C']), system['shapes']['B0'][1]

    def vec(size, bound=5.):
        return [draw(gen.num(-bound, bound)) for _ in range(size)]
    times = draw(repeat)
    if times > 1:  # A system which is stable, so that the sequence can be repeated
        a = np.array(system['A'])
        system['A'] = np.round(a * min(1., 0.9 / max(1e-3, np.linalg.norm(a, 2))), 3).tolist()
    return {'system': system, 'tuning': draw(tuning), 'mean': vec(n),
            'cov': draw(spd(n, lo, hi, singular)),
            'q': draw(spd(n, lo, hi, singular)) if draw(st.integers(0, 4)) else None,
            'r': draw(spd(m, lo, hi)) if draw(st.integers(0, 4)) else None,
            'u': vec(k), 'steps': [{'u': vec(k), 'y': vec(m)} for _ in range(draw(st.integers(1, steps)))] * times}


def parameters(case):
    """Tuning and noises with defaults, and arguments for the filter"""
    t, n, m = case['tuning'], len(case['system']['A']), len(case['system']['C'])
    big = 2 * n + m
    kappa = t['kappa']
    if isinstance(kappa, float) and kappa < 0:
        kappa = kappa * (big - 0.5)  # Always more than -L
    kwargs = {}
    for name, v in [('alpha', t['alpha']), ('beta', t['beta']), ('kappa', kappa)]:
        if v is not None:
            kwargs[f'{name}_param'] = v
    if case['q'] is not None:
        kwargs['covariance_process_noise'] = np.array(case['q'])
    if case['r'] is not None:
        kwargs['covariance_sensor_noise'] = np.array(case['r'])
    full = {'alpha': 1. if t['alpha'] is None else t['alpha'], 'beta': 2. if t['beta'] is None else t['beta'],
            'kappa': 0. if kappa is None else kappa,
            'q': 1e-8 * np.eye(n) if case['q'] is None else np.array(case['q']),
            'r': 1e-8 * np.eye(m) if case['r'] is None else np.array(case['r'])}
    return kwargs, full


def convert(case, x, y):
    """The same run with states and outputs in other units"""
    x, y, s = np.array(x), np.array(y), case['system']
    a, b0, b1, c, d = (np.array(s[k], dtype=float).reshape(s['shapes'][k]) for k in ('A', 'B0', 'B1', 'C', 'D'))
    return {**case, 'system': {**s, 'A': x[:, None] * a / x, 'B0': x[:, None] * b0, 'B1': x[:, None] * b1,
                               'C': y[:, None] * c / x, 'D': y[:, None] * d},
            'mean': x * case['mean'], 'cov': np.outer(x, x) * case['cov'], 'q': np.outer(x, x) * case['q'],
            'r': np.outer(y, y) * case['r'], 'steps': [{'u': t['u'], 'y': y * t['y']} for t in case['steps']]}


def make_filter(case, view=False):
    kwargs, full = parameters(case)
    model = System({**case['system'], 'view': view})
    first = {'hidden': MultivariateGaussian(mean=np.array(case['mean']), covariance=np.array(case['cov'])),
             'controls': DeltaDistribution(mean=np.array(case['u']))}
    ukf = UnscentedKalmanFilter(model=model, initial_hidden=first['hidden'], initial_controls=first['controls'], **kwargs)
    return ukf, model, full, first, kwargs
