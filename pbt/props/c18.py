"""Symmetry and positive semi-definiteness of covariances"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.distributions import DeltaDistribution
from moirae.estimators.online.filters.kalman.utils import (enforce_positive_semi_defiteness,
                                                           ensure_positive_semi_definite)

from .. import gen, kfref
from ..core import Clause, close, require, same


# --- Repair
@st.composite
def matrices(draw):
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(['valid', 'valid', 'singular', 'indefinite', 'indefinite', 'asymmetric', 'any', 'negative',
                                 'badly scaled', 'nearly symmetric']))
    vals = [[draw(gen.num(-1., 1., 3)) for _ in range(n)] for _ in range(n)]
    if kind == 'badly scaled':
        eig = [draw(gen.lognum(1e-8, 1e4)) for _ in range(n)]
    else:
        eig = [draw(gen.num(0.05, 1., 3)) for _ in range(n)]
    return {'kind': kind, 'vals': vals, 'eig': eig, 'signs': [draw(st.sampled_from([1, 1, 0, -1])) for _ in range(n)],
            'scale': draw(st.sampled_from([1., 1., 1e-4, 1e-8, 1e-12, 1e4]))}


def make_matrix(case):
    vals, eig = np.array(case['vals']), np.array(case['eig'])
    n = len(eig)
    if case['kind'] == 'any':
        out = vals
    elif case['kind'] == 'badly scaled':
        low = np.tril(vals, -1) * 0.5 + np.eye(n)
        d = np.diag(np.sqrt(eig))
        out = d @ (low @ low.T) @ d
        out = (out + out.T) / 2
    else:
        q, _ = np.linalg.qr(vals + 2 * np.eye(n))
        signs = {'valid': np.ones(n), 'negative': -np.ones(n), 'asymmetric': np.array(case['signs'], dtype=float),
                 'nearly symmetric': np.where(np.array(case['signs']) < 0, -1., 1.),
                 'singular': np.abs(case['signs']), 'indefinite': np.array(case['signs'], dtype=float)}[case['kind']]
        out = (q * (eig * signs)) @ q.T
        out = (out + out.T) / 2
        if case['kind'] == 'asymmetric':
            out = out + np.triu(np.where(np.abs(vals) < 0.1, 0., vals), 1)
        if case['kind'] == 'nearly symmetric':
            out = out * (1 + case['eig'][0] * 2e-2 * np.triu(np.where(np.abs(vals) < 0.1, 0., vals), 1))
    return out * case['scale']


def check_repair(case, note):
    mat = make_matrix(case)
    given = mat.copy()
    found = ensure_positive_semi_definite(given)
    same(given, mat, 'matrix given by the caller')
    size = np.abs(mat).max() or 1.
    sym = (mat + mat.T) / 2
    eig, vec = np.linalg.eigh(sym)
    gap = np.abs(mat - mat.T).max()
    valid = gap == 0 and case['kind'] in ('valid', 'badly scaled')
    if valid:
        same(found, mat, 'a matrix which is positive definite')
    nearest = (vec * np.clip(eig, 0., None)) @ vec.T
    close(found / size, nearest / size, 'nearest positive semi-definite matrix', 1e-9, 1e-9)
    close(found / size, found.T / size, 'symmetry', 0., 1e-12)
    require(np.linalg.eigvalsh((found + found.T) / 2).min() >= -1e-12 * size * len(mat), 'the result has a negative eigenvalue')
    close(ensure_positive_semi_definite(found) / size, found / size, 'a repaired matrix, repaired again', 1e-9, 1e-9)
    close(enforce_positive_semi_defiteness(given) / size, nearest / size, 'projection', 1e-9, 1e-9)
    same(given, mat, 'matrix given by the caller')
    found[...] = -1.
    same(given, mat, 'matrix given by the caller, after the result was changed')
    note(case['kind'], f'scale {case["scale"]:g}', nontrivial=not valid and len(mat) > 1)


# --- Filter
@st.composite
def filter_cases(draw):
    case = draw(kfref.runs(nonlinear=draw(st.booleans()), singular=True, steps=8, repeat=gen.once_or_many))
    case['scale'] = draw(st.sampled_from([1., 1., 1e-3, 1e-6, 1e3]))  # Of the covariances
    case['first'] = draw(st.sampled_from([1., 1e-4, 1e-8, 0.]))  # Of the variances of the first state
    return case


def check_filter(case, note):
    n = len(case['mean'])
    d = np.eye(n)
    d[0, 0] = case['first']
    case = {**case, 'cov': (case['scale'] * d @ np.array(case['cov']) @ d).tolist(),
            'r': None if case['r'] is None else (max(case['scale'], 1e-6) * np.array(case['r'])).tolist(),
            'q': None if case['q'] is None else (case['scale'] * d @ np.array(case['q']) @ d).tolist()}
    ukf, model, full, first, kwargs = kfref.make_filter(case)
    start = [ukf.hidden.get_covariance()]
    for t, s in enumerate(case['steps']):
        before = ukf.hidden.get_covariance()
        x, y = ukf.step(new_controls=DeltaDistribution(mean=np.array(s['u'])),
                        measurements=DeltaDistribution(mean=np.array(s['y'])))
        for what, cov in [('held', ukf.hidden.get_covariance()), ('returned', x.get_covariance())]:
            require(np.isfinite(cov).all(), f'covariance {what} after step {t} is not finite')
            # What was subtracted sets the rounding error
            size = max(np.abs(cov).max(), np.abs(before).max(), np.abs(full['q']).max())
            # Rounding errors of this size are tolerated by the repair
            close(cov / size, cov.T / size, f'covariance {what} after step {t}: symmetry', 2e-5, 1e-7)
            low = np.linalg.eigvalsh((cov + cov.T) / 2).min()
            require(low >= -1e-9 * size - n * np.abs(cov - cov.T).max(), f'covariance {what} after step {t} has the eigenvalue {low:.3g}, '
                                         f'largest entry {size:.3g}')
        require(np.isfinite(x.get_mean()).all(), f'mean after step {t} is not finite')
    singular = any(np.linalg.eigvalsh(m).min() < 1e-12 * max(np.abs(m).max(), 1e-300) for m in (start[0], full['q']))
    note('nonlinear' if case['system']['nonlinear'] else 'linear', 'singular' if singular else 'regular',
         f'scale {case["scale"]:g}', nontrivial=singular and len(case['steps']) > 1)


CLAUSES = [
    Clause('repair', matrices, check_repair, 'the matrix is not positive definite and symmetric', 4000, 200000),
    Clause('filter', filter_cases, check_filter, 'a covariance is singular, several steps', 1200, 50000),
]
ASSUMPTIONS = ['Sensor noise is positive definite', 'Asymmetries are either zero or far above rounding errors']
