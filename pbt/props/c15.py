"""Coordinate conversions"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.conversions import (AbsoluteValueConversionOperator,
                                                          FirstOrderTaylorConversionOperator,
                                                          IdentityConversionOperator, LinearConversionOperator)

from .. import gen
from ..core import Clause, close, raises, require, same


def vectors(n, lo=-5., hi=5.):
    return st.lists(gen.num(lo, hi), min_size=n, max_size=n)


@st.composite
def matrices(draw, n, m):
    """Well-conditioned matrices: two rotations around scales"""
    k = min(n, m)
    scale = [draw(gen.lognum(0.05, 20.)) * draw(st.sampled_from([1, -1])) for _ in range(k)]
    if n == m and draw(st.booleans()):
        # Triangular, and so not orthogonal to anything
        return [[scale[i] if i == j else (draw(gen.num(-1., 1.)) * min(abs(scale[i]), abs(scale[j])) if j < i else 0.)
                 for j in range(n)] for i in range(n)]

    def rotation(size):
        out = np.eye(size)
        for i in range(size):
            for j in range(i):
                t = draw(gen.num(-3., 3., 3))
                r = np.eye(size)
                r[i, i] = r[j, j] = np.cos(t)
                r[i, j], r[j, i] = -np.sin(t), np.sin(t)
                out = out @ r
        return out
    mid = np.zeros((n, m))
    mid[range(k), range(k)] = scale
    return (rotation(n) @ mid @ rotation(m)).tolist()


@st.composite
def covariances(draw, n):
    a = [draw(vectors(n, -2., 2.)) for _ in range(n)]
    return (np.array(a).reshape(n, n) @ np.array(a).reshape(n, n).T).tolist()


@st.composite
def operators(draw, n):
    """Specification of a conversion of n values"""
    kind = draw(st.sampled_from(['scalar', 'diagonal', 'square', 'square', 'embed', 'reduce', 'absolute', 'absolute some',
                                 'identity', 'cubic']))
    spec = {'kind': kind, 'n': n}
    out = n
    if kind == 'scalar':
        spec['m'] = draw(st.sampled_from([1, -1])) * draw(gen.lognum(0.01, 100.))
    elif kind == 'diagonal':
        big = draw(st.sampled_from([1e2, 1e2, 1e4]))  # Coordinates may be of very different magnitudes
        spec['m'] = [draw(st.sampled_from([1, -1])) * draw(gen.lognum(1 / big, big)) for _ in range(n)]
    elif kind in ('square', 'embed', 'reduce'):
        out = {'square': n, 'embed': n + draw(st.integers(1, 2)), 'reduce': max(1, n - draw(st.integers(1, 2)))}[kind]
        spec['m'] = draw(matrices(n, out))
    elif kind == 'absolute some':
        spec['indices'] = draw(st.lists(st.integers(0, n - 1), unique=draw(st.booleans()), max_size=n))
    if kind in ('scalar', 'diagonal', 'square', 'embed', 'reduce'):
        spec['b'] = draw(st.one_of(st.none(), vectors(out), vectors(1)))
    spec['out'] = out
    return spec


class Cubic(FirstOrderTaylorConversionOperator):
    """A user-defined conversion, whose Jacobian depends on the pivot"""

    def get_jacobian(self, pivot):
        return np.diag(3 * pivot ** 2)

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(np.abs(transformed_pivot) ** (-2 / 3) / 3)

    def transform_samples(self, samples):
        return samples ** 3

    def inverse_transform_samples(self, transformed_samples):
        return np.cbrt(transformed_samples)


def build(spec):
    k = spec['kind']
    if k == 'identity':
        return IdentityConversionOperator()
    if k == 'cubic':
        return Cubic()
    if k == 'absolute':
        return AbsoluteValueConversionOperator()
    if k == 'absolute some':
        return AbsoluteValueConversionOperator(indices=spec['indices'])
    kwargs = {} if spec['b'] is None else {'additive_array': np.array(spec['b'])}
    return LinearConversionOperator(multiplicative_array=np.array(spec['m'], dtype=float), **kwargs)


def matrix(spec):
    """Matrix M of x -> x M + b"""
    if spec['kind'] == 'scalar':
        return np.eye(spec['n']) * spec['m']
    if spec['kind'] == 'diagonal':
        return np.diag(spec['m'])
    if spec['kind'] == 'identity':
        return np.eye(spec['n'])
    return np.array(spec['m'], dtype=float)


def forward(spec, x):
    """Conversion of one point, value by value"""
    if spec['kind'] == 'cubic':
        return [v ** 3 for v in x]
    if spec['kind'].startswith('absolute'):
        return [abs(v) if spec['kind'] == 'absolute' or i in spec['indices'] else v for i, v in enumerate(x)]
    m = matrix(spec)
    b = spec.get('b') or [0.]
    return [sum(x[i] * m[i, j] for i in range(len(x))) + b[j % len(b)] for j in range(m.shape[1])]


def jacobian(spec, x):
    """dy_j / dx_i, as a list of rows i"""
    if spec['kind'] == 'cubic':
        return np.diag([3 * v * v for v in x])
    if spec['kind'].startswith('absolute'):
        return np.diag([-1. if v < 0 and (spec['kind'] == 'absolute' or i in spec['indices']) else 1.
                        for i, v in enumerate(x)])
    return matrix(spec)


def inverse_jacobian(spec, y):
    if spec['kind'] == 'cubic':
        return np.diag([1 / (3 * np.cbrt(v) ** 2) for v in y])
    if spec['kind'].startswith('absolute'):
        return np.eye(len(y))
    return np.linalg.pinv(matrix(spec))


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4] * 3 + [7]))
    op = draw(operators(n))
    return {'op': op, 'points': [draw(vectors(n)) for _ in range(draw(st.integers(1, 4)))],
            'images': [draw(vectors(op['out'])) for _ in range(draw(st.integers(1, 4)))],
            'cov': draw(covariances(n)), 'image cov': draw(covariances(op['out']))}


def frozen(func, **arrays):
    """Call with arrays which must stay as they are"""
    saved = {k: v.copy() for k, v in arrays.items()}
    out = func(**arrays)
    for k, v in arrays.items():
        same(v, saved[k], f'{func.__name__}: {k} given by the caller')
    return out


def check(case, note):
    spec = case['op']
    op = build(spec)
    kind, n, m = spec['kind'], spec['n'], spec['out']
    points, images = np.array(case['points']), np.array(case['images'])
    cov, image_cov = np.array(case['cov']), np.array(case['image cov'])
    if kind == 'cubic':  # Away from the place where its inverse has no derivative
        points = points + np.where(points >= 0, 0.5, -0.5)
        images = images + np.where(images >= 0, 0.5, -0.5)

    # Points, together and one at a time
    y = frozen(op.transform_samples, samples=points.copy())
    close(y, [forward(spec, x) for x in points.tolist()], 'points converted together')
    x = frozen(op.inverse_transform_samples, transformed_samples=images.copy())
    require(x.shape == (len(images), n), f'points converted back have shape {x.shape}')
    for i in range(len(points)):
        close(frozen(op.transform_samples, samples=points[i].copy()), forward(spec, points[i].tolist()),
              'points converted alone')
        close(op.transform_samples(samples=points[i:i + 1].copy()), [forward(spec, points[i].tolist())], 'a single row')
    for i in range(len(images)):
        close(frozen(op.inverse_transform_samples, transformed_samples=images[i].copy()), x[i],
              'points converted back alone')

    # Inverses
    scale = 1e-6
    if kind != 'reduce':
        start = np.abs(points) if kind.startswith('absolute') else points
        close(op.inverse_transform_samples(op.transform_samples(start.copy())), start,
              'points converted forward and back', scale, scale)
    if kind != 'embed':
        start = np.abs(images) if kind.startswith('absolute') else images
        close(op.transform_samples(op.inverse_transform_samples(start.copy())), start,
              'points converted back and forward', scale, scale)

    # Covariances
    for name, given, at, jac in [('transform_covariance', cov, points[0], jacobian(spec, points[0].tolist())),
                                 ('inverse_transform_covariance', image_cov, images[0],
                                  inverse_jacobian(spec, images[0].tolist()))]:
        args = ({'covariance': given.copy(), 'pivot': at.copy()} if name == 'transform_covariance' else
                {'transformed_covariance': given.copy(), 'transformed_pivot': at.copy()})
        found = frozen(getattr(op, name), **args)
        expected = jac.T @ given @ jac
        size = np.abs(expected).max() + 1e-9
        close(found / size, expected / size, name, 1e-7, 1e-7)
        close(found / size, found.T / size, f'{name}: symmetry', 0., 1e-10)
        require(np.linalg.eigvalsh((found + found.T) / 2).min() >= -1e-8 * size, f'{name} is not positive semi-definite')
        # The Jacobian is that of the conversion of points
        func = op.transform_samples if name == 'transform_covariance' else op.inverse_transform_samples
        if not kind.startswith('absolute') or np.abs(at).min() > 1e-3:
            h = 1e-5
            num = np.array([(func(at + h * e) - func(at - h * e)) / (2 * h) for e in np.eye(len(at))])
            if kind.startswith('absolute') and name != 'transform_covariance':
                num = np.eye(len(at))
            close(found / size, num.T @ given @ num / size, f'{name} from differences of points', 1e-4, 1e-4)
    both = op.inverse_transform_covariance(transformed_covariance=op.transform_covariance(covariance=cov, pivot=points[0]),
                                           transformed_pivot=op.transform_samples(points[0]))
    if kind != 'reduce' and (not kind.startswith('absolute') or (points[0] >= 0).all()):
        close(both, cov, 'covariance converted forward and back', 1e-6, 1e-6 * (np.abs(cov).max() + 1))
    if kind == 'identity':
        same(y, points, 'identity of points')
        same(x, images, 'inverse identity of points')
        same(op.transform_covariance(covariance=cov), cov, 'identity of covariance')
        same(op.inverse_transform_covariance(transformed_covariance=cov), cov, 'inverse identity of covariance')
    # The operator gives the same answers again
    same(op.transform_samples(points.copy()), y, 'points converted twice')
    same(op.inverse_transform_samples(images.copy()), x, 'points converted back twice')
    note(kind, f'{n} to {m}', 'no offset' if spec.get('b') is None else 'offset', nontrivial=kind != 'identity' and
         bool(np.abs(points).sum() > 0))


def check_bad(case, note):
    x = np.ones(case['shape'])
    if case['what'] == 'additive':
        raises(lambda: LinearConversionOperator(additive_array=x), f'additive array of shape {case["shape"]}', ValueError)
    else:
        x = np.ones(case['shape'] + [1])
        raises(lambda: LinearConversionOperator(multiplicative_array=x), f'multiplicative array of shape {x.shape}',
               ValueError)
    note(case['what'], nontrivial=True)


CLAUSES = [
    Clause('conversions', cases, check, 'not the identity, and points other than the origin', 2500, 100000),
    Clause('too many dimensions', st.fixed_dictionaries({
        'what': st.sampled_from(['additive', 'multiplicative']),
        'shape': st.lists(st.integers(1, 3), min_size=2, max_size=3)}), check_bad, 'any', 60, 500),
]
ASSUMPTIONS = ['Matrices are of full rank', 'The derivative of |x| at zero is taken as 1, as documented']
