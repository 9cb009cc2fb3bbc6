"""Distributions"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian

from .. import gen, hvtree as hv
from ..core import Clause, close, raises, require, same
from . import c15


@st.composite
def parts(draw):
    n = draw(st.sampled_from([1, 2, 3, 4] * 3 + [7]))
    return {'mean': draw(c15.vectors(n)), 'cov': draw(c15.covariances(n))}


@st.composite
def cases(draw):
    first = draw(parts())
    return {'delta': draw(st.booleans()), 'parts': [first, *draw(st.lists(parts(), max_size=draw(st.sampled_from([4, 4, 4, 12]))))],
            'op': draw(c15.operators(len(first['mean']))), 'as': draw(st.sampled_from(['list', 'tuple', 'iterator'])),
            'nested': draw(st.booleans())}


def build(spec, delta):
    if delta:
        return DeltaDistribution(mean=np.array(spec['mean']))
    return MultivariateGaussian(mean=np.array(spec['mean']), covariance=np.array(spec['cov']))


def agree(dist, mean, cov, what):
    same(dist.get_mean(), mean, f'{what}: mean')
    same(dist.get_covariance(), cov, f'{what}: covariance')
    require(dist.num_dimensions == len(mean), f'{what}: {dist.num_dimensions} dimensions rather than {len(mean)}')


def moments(spec, delta):
    n = len(spec['mean'])
    return np.array(spec['mean']), np.zeros((n, n)) if delta else np.array(spec['cov'])


def blocks(mats):
    out = np.zeros((sum(map(len, mats)),) * 2)
    pos = 0
    for m in mats:
        out[pos:pos + len(m), pos:pos + len(m)] = m
        pos += len(m)
    return out


def check(case, note):
    delta, specs = case['delta'], case['parts']
    dists = [build(s, delta) for s in specs]
    kind = type(dists[0])

    def unchanged(what):
        for d, s in zip(dists, specs):
            agree(d, *moments(s, delta), what)
    unchanged('after creation')
    for d in dists:  # Moments are private
        hv.spoil(d.get_mean())
        hv.spoil(d.get_covariance())
    unchanged('after changing moments which were read')

    # Combination
    mean = [v for s in specs for v in s['mean']]
    cov = np.zeros((len(mean), len(mean)))
    pos = 0
    for s in specs:
        n = len(s['mean'])
        cov[pos:pos + n, pos:pos + n] = moments(s, delta)[1]
        pos += n
    rest = {'list': list, 'tuple': tuple, 'iterator': iter}[case['as']](dists[1:])
    whole = dists[0].combine_with(rest)
    require(type(whole) is kind, f'combination is a {type(whole).__name__}')
    agree(whole, mean, cov, 'combination')
    unchanged('after combination')
    agree(dists[0].combine_with([dists[0], *dists[1:2], dists[0]]), *[
        f([moments(specs[k], delta)[i] for k in [0, 0, *range(1, len(specs[:2])), 0]]) for i, f in ((0, np.concatenate), (1, blocks))],
        'combination with itself')
    one_by_one = dists[0]
    for d in dists[1:]:
        one_by_one = one_by_one.combine_with([d])
    agree(one_by_one, mean, cov, 'combination in steps')
    if len(dists) > 2:
        agree(dists[0].combine_with([dists[1].combine_with(dists[2:])]), mean, cov, 'combination of a combination')
    whole.mean[...] = -1.
    if not delta:
        whole.covariance[...] = -1.
    unchanged('after changing the combination')

    # Conversion
    d, spec = dists[0], case['op']
    op = c15.build(spec)
    x, cov = moments(specs[0], delta)
    if spec['kind'] == 'cubic':
        x = np.where(x >= 0, x + 0.5, x - 0.5)
        d = build({**specs[0], 'mean': x.tolist()}, delta)
    new = d.convert(op)
    require(type(new) is kind, f'conversion is a {type(new).__name__}')
    jac = c15.jacobian(spec, x.tolist())
    close(new.get_mean(), c15.forward(spec, x.tolist()), 'converted mean')
    size = 1 + np.abs(jac.T @ cov @ jac).max()
    close(new.get_covariance() / size, jac.T @ cov @ jac / size, 'converted covariance', 1e-8, 1e-9)
    y, expected = new.get_mean(), new.get_covariance()
    if spec['kind'] not in ('reduce',) and not spec['kind'].startswith('absolute'):
        back = new.convert(op, inverse=True)
        require(type(back) is kind, f'conversion is a {type(back).__name__}')
        close(back.get_mean(), x, 'mean converted forward and back', 1e-6, 1e-6)
        close(back.get_covariance(), cov, 'covariance converted forward and back', 1e-6, 1e-6 * (1 + np.abs(cov).max()))
    back = new.convert(op, inverse=True)
    close(back.get_mean(), op.inverse_transform_samples(y), 'mean converted back')
    jac = c15.inverse_jacobian(spec, y.tolist())
    size = 1 + np.abs(jac.T @ expected @ jac).max()
    close(back.get_covariance() / size, jac.T @ expected @ jac / size, 'covariance converted back', 1e-7, 1e-8)
    agree(new, y, expected, 'converted distribution, after being converted back')
    agree(d, x, cov, 'distribution which was converted')
    unchanged('after conversion')
    # Changing the result does not change the original, other than for the identity, which does not copy
    for z in (new, back):
        z.mean[...] = -7.
    agree(d, x, cov, 'distribution which was converted, after changing the result')
    note('delta' if delta else 'Gaussian', f'{len(dists)} parts', spec['kind'], case['as'],
         nontrivial=len(dists) > 1 and len(specs[0]['mean']) > 1)


@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 3))
    what = draw(st.sampled_from(['mean', 'mean', 'cov', 'cov']))
    if what == 'mean':
        shape = draw(st.one_of(st.just([]), st.lists(st.integers(1, 3), min_size=2, max_size=3)))
    else:
        shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3).filter(lambda s: s != [n, n]))
    return {'n': n, 'what': what, 'shape': shape, 'delta': draw(st.booleans()), 'assign': draw(st.booleans())}


def check_bad(case, note):
    n, bad = case['n'], np.ones(case['shape'])
    good = MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n))
    if case['what'] == 'mean':
        what = f'mean of shape {bad.shape}'
        if case['delta']:
            raises(lambda: DeltaDistribution(mean=bad), what, ValueError, TypeError)
            raises(lambda: setattr(DeltaDistribution(mean=np.zeros(n)), 'mean', bad), 'assigned ' + what, ValueError, TypeError)
        else:
            size = int(bad.size)
            raises(lambda: MultivariateGaussian(mean=bad, covariance=np.eye(size)), what, ValueError, TypeError)
            raises(lambda: setattr(good, 'mean', bad), 'assigned ' + what, ValueError, TypeError)
    else:
        what = f'covariance of shape {bad.shape} for {n} dimensions'
        raises(lambda: MultivariateGaussian(mean=np.zeros(n), covariance=bad), what, ValueError, TypeError)
        raises(lambda: setattr(good, 'covariance', bad), 'assigned ' + what, ValueError, TypeError)
    note(case['what'], nontrivial=True)


CLAUSES = [
    Clause('distributions', cases, check, 'several parts, the first of which is multivariate', 2000, 80000),
    Clause('malformed', bad_cases, check_bad, 'any', 300, 5000),
]
ASSUMPTIONS = ['The arrays given to a distribution when it is made are not changed by the caller afterwards']
