"""Dual estimation against two unscented filters on the model itself"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper
from moirae.models.ecm.ins_outs import ECMMeasurement

from .. import ecmref as ref, estgen as eg, gen, kfref, linmodel as lm
from ..core import Clause, close, require
from .c20 import check_names, compare, consistent


def conversion(draw, sd):
    kind = draw(st.sampled_from(['diagonal', 'none', 'triangular', 'scalar']))
    if kind == 'none':
        return None
    if kind == 'scalar':
        return {'mult': draw(gen.lognum(0.1, 10., 3)), 'add': None}
    return draw(eg.diagonal(len(sd), sd) if kind == 'diagonal' else eg.triangular(len(sd), sd))


@st.composite
def cases(draw):
    case = draw(eg.problems(split=True))
    case['kind'] = kind = draw(st.sampled_from(['converted', 'normalised', 'plain', 'converted']))
    own = kind == 'converted'
    case['mark'] = not own or draw(st.booleans())
    case['missing'] = draw(st.sampled_from([None, None, 'transient', 'asoh', 'both']))  # Tuning which is not given
    prob = eg.Problem(case, mark=case['mark'])
    n_in = 2 if case['drive'][0]['temperature'] is None else 3
    case['conv'] = {}
    for part in ('transient', 'asoh'):
        sd = np.sqrt(np.diag(prob.cov[part])).tolist()
        case['conv'][part] = {'hidden': conversion(draw, sd) if own else None,
                              'control': draw(eg.diagonal(n_in)) if own and draw(st.booleans()) else None,
                              'output': draw(eg.diagonal(1)) if own and draw(st.booleans()) else None}
    # Parts whose process noise is left to the default of the filters, in whose coordinates it is
    case['default noise'] = [k for k in ('transient', 'asoh') if case['conv'][k]['hidden'] is None
                             and (k, kind) != ('asoh', 'normalised') and draw(st.integers(0, 2)) == 0]
    return case


def noise(case, prob):
    return {k: 1e-8 * np.eye(len(q)) if k in case.get('default noise', []) else q for k, q in prob.q.items()}


def arguments(case):
    """Tuning as given, and its effect"""
    given, full = {}, {}
    for part in ('transient', 'asoh'):
        if case['missing'] in (part, 'both'):
            full[part] = eg.full_tuning({'alpha': None, 'beta': None, 'kappa': None})
        else:
            given[part] = eg.filter_args(case['tuning'][part])
            full[part] = eg.full_tuning(case['tuning'][part])
    return given, full


def make(case, prob):
    given, full = arguments(case)
    args = dict(covariance_transient=prob.cov['transient'].copy(), covariance_asoh=prob.cov['asoh'].copy(),
                covariance_sensor_noise=prob.r.copy(),
                **{f'{k}_covariance_process_noise': q.copy() for k, q in prob.q.items() if k not in case.get('default noise', [])},
                **eg.uncertain(case, prob.inputs[0]))
    if case['missing'] != 'both':
        args['filter_args'] = given
    if case['kind'] != 'converted':
        return DualEstimator.initialize_unscented_kalman_filter(
            cell_model=prob.model, initial_asoh=prob.asoh, initial_transients=prob.state, initial_inputs=prob.inputs[0],
            normalize_asoh=case['kind'] == 'normalised', **args), full
    conv = {part: {f'{k}_conversion_operator': eg.operator(v) for k, v in d.items() if v is not None}
            for part, d in case['conv'].items()}
    common = dict(cell_model=prob.model, asoh=prob.asoh, transients=prob.state, inputs=prob.inputs[0])
    return DualEstimator.initialize_ukf_from_wrappers(
        transient_wrapper=CellModelWrapper(**common, converters=conv['transient']),
        asoh_wrapper=DegradationModelWrapper(**common, converters=conv['asoh'],
                                             **({} if case['mark'] else {'asoh_inputs': tuple(prob.names)})),
        **args), full


def check(case, note):
    prob = eg.Problem(case, mark=case['mark'])
    est, tuning = make(case, prob)
    check_names(est, prob)
    n = prob.num_states
    x, p = prob.x0, prob.p0
    cov, proc = dict(prob.cov), noise(case, prob)
    sd = np.sqrt(np.concatenate([np.diag(cov['transient']), np.diag(cov['asoh'])]))
    compare(consistent(est, prob, 'at the start'), np.concatenate([x, p]), eg.block(cov['transient'], cov['asoh']), sd,
            'at the start', 1e-9)
    for k in range(1, len(prob.inputs)):
        def step(y):
            return (kfref.unscented_step(lambda s: prob.advance(s, p, k), lambda s: prob.voltage(s, p, k), x,
                                         cov['transient'], proc['transient'], prob.r, **tuning['transient'], y=y),
                    kfref.unscented_step(lambda h: h, lambda h: prob.voltage(prob.advance(x, h, k), h, k), p,
                                         cov['asoh'], proc['asoh'], prob.r, **tuning['asoh'], y=y))
        if min(np.linalg.eigvalsh(c / np.sqrt(np.outer(np.diag(c), np.diag(c)))).min() for c in cov.values()) < 1e-7:
            note('stopped')
            break
        y = step(np.zeros(1))[0]['y_mean'] + case['dv'][k - 1]
        exp = step(y)
        amp = max(e['amplification'] * (1 + np.abs(e['y_cov']).max() / prob.r.min()) for e in exp)
        tol = min(1e-9 * amp, 1e-3)
        sds = [np.sqrt(np.diag(e['x_cov']).clip(1e-300)) for e in exp]
        if min(np.linalg.eigvalsh(e['cov'] / np.outer(s, s)).min() for e, s in zip(exp, sds)) < 1e-7:
            note('stopped')  # The repair of covariances depends on coordinates
            break
        state, pred = est.step(ref.build_input(case['drive'][k]), ECMMeasurement(terminal_voltage=y[0]))
        sd_y = np.sqrt(exp[0]['y_cov'][0, 0])
        close((pred.get_mean() - exp[0]['y_mean']) / sd_y, [0.], f'step {k}: error of predicted voltage over deviation',
              0, tol)
        close(pred.get_covariance(), exp[0]['y_cov'], f'step {k}: variance of predicted voltage', tol, 0)
        sd = np.concatenate(sds)
        x, p = exp[0]['mean'], exp[1]['mean']
        cov = {'transient': exp[0]['cov'], 'asoh': exp[1]['cov']}
        compare(state, np.concatenate([x, p]), eg.block(cov['transient'], cov['asoh']), sd, f'step {k}: result', tol)
        require((state.get_covariance()[:n, n:] == 0).all() and (state.get_covariance()[n:, :n] == 0).all(),
                f'step {k}: there is a covariance between the two estimates')
        held = consistent(est, prob, f'step {k}')
        compare(held, state.get_mean(), state.get_covariance(), sd, f'step {k}: state and result', 1e-9)
    note(case['kind'], f'{len(prob.names)} parameters', f'tuning missing: {case["missing"]}', *[f'default noise of {k}' for k in case.get('default noise', [])],
         *[f'{part} {k} converted' for part, d in case['conv'].items() for k, v in d.items() if v is not None],
         nontrivial=len(prob.inputs) > 2 and case['kind'] != 'plain')


# --- A linear model with several outputs, any affine coordinates
@st.composite
def linear_cases(draw):
    case = draw(lm.problems())
    del case['cov'], case['q']
    n = lm.size(case)

    def affine(k):
        d = draw(eg.diagonal(k))
        d['mult'] = (np.diag(d['mult']) @ np.array([[1. if i == j else draw(gen.num(-0.5, 0.5, 2)) / k for j in range(k)]
                                                     for i in range(k)])).tolist()
        return d
    for part, k in [('transient', 3), ('asoh', n - 3)]:
        case[part] = {'cov': draw(eg.covariance([1.] * k)), 'q': draw(eg.covariance([0.3] * k)), 'conv':
                      {'hidden': affine(k) if draw(st.integers(0, 3)) < 3 else None,
                       'control': affine(3) if draw(st.booleans()) else None,
                       'output': affine(3) if draw(st.booleans()) else None}}
    return case


def check_linear(case, note):
    sys = lm.Linear(case)
    parts = ('transient', 'asoh')
    conv = {part: {f'{k}_conversion_operator': eg.operator(v) for k, v in case[part]['conv'].items() if v is not None}
            for part in parts}
    common = dict(cell_model=sys, asoh=sys.asoh, transients=sys.state, inputs=sys.input(0))
    args = eg.filter_args(case['tuning'])
    est = DualEstimator.initialize_ukf_from_wrappers(
        transient_wrapper=CellModelWrapper(**common, converters=conv['transient']),
        asoh_wrapper=DegradationModelWrapper(**common, converters=conv['asoh'], asoh_inputs=tuple(case['names'])),
        covariance_transient=np.array(case['transient']['cov']), covariance_asoh=np.array(case['asoh']['cov']),
        transient_covariance_process_noise=np.array(case['transient']['q']),
        asoh_covariance_process_noise=np.array(case['asoh']['q']), covariance_sensor_noise=np.array(case['r']),
        filter_args={'transient': args, 'asoh': args}, **eg.uncertain(case, sys.input(0)))
    a, c = sys.joint_matrices()
    f, g, h, kk = a[:3, :3], a[:3, 3:], c[:, :3], c[:, 3:]
    x, p = np.array(case['x']), np.array(case['p'])[sys.cols]
    cov = {k: np.array(case[k]['cov']) for k in parts}
    q, r = {k: np.array(case[k]['q']) for k in parts}, np.array(case['r'])
    tuning = eg.full_tuning(case['tuning'])

    def amp(n):
        big = 2 * n + 3
        return 1 + big / (tuning['alpha'] ** 2 * (big + (3 - big if tuning['kappa'] == 'automatic' else tuning['kappa'])))
    require(tuple(est.state_names) == sys.names, f'names {est.state_names} rather than {sys.names}')
    for k in range(1, len(case['u'])):
        y, s, o = np.array(case['y'][k]), sys.shift(k)[:3], sys.out_shift(k)
        exp_x = kfref.kalman_step(f, s + g @ p, h, o + kk @ p, x, cov['transient'], q['transient'], r, y)
        n = len(p)
        exp_p = kfref.kalman_step(np.eye(n), np.zeros(n), h @ g + kk, h @ (f @ x + s) + o, p, cov['asoh'], q['asoh'], r, y)
        state, pred = est.step(sys.input(k), sys.output(k))
        tol = max(1e-11 * amp(len(e['mean'])) * (1 + np.linalg.norm(e['gain'])) ** 2 * 4000 for e in (exp_x, exp_p))
        close(pred.get_mean(), exp_x['y_mean'], f'step {k}: predicted output', 1e-8, tol)
        close(pred.get_covariance(), exp_x['y_cov'], f'step {k}: covariance of predicted output', 1e-8, tol)
        x, p = exp_x['mean'], exp_p['mean']
        cov = {'transient': exp_x['cov'], 'asoh': exp_p['cov']}
        for dist, what in [(state, 'result'), (est.state, 'state')]:
            close(dist.get_mean(), np.concatenate([x, p]), f'step {k}: {what}', 1e-8, tol)
            close(dist.get_covariance(), eg.block(cov['transient'], cov['asoh']), f'step {k}: covariance of {what}', 1e-8,
                  tol)
        trans, asoh = est.get_estimated_state()
        close(trans.to_numpy()[0], state.get_mean()[:3], f'step {k}: estimated transient state', 1e-9, 1e-9)
        close(asoh.get_parameters(case['names'])[0], state.get_mean()[3:], f'step {k}: estimated health', 1e-9, 1e-9)
    note(*[f'{part} {k} converted' for part in parts for k, v in case[part]['conv'].items() if v is not None],
         nontrivial=len(case['u']) > 2 and any(case[part]['conv']['hidden'] is not None for part in parts))


CLAUSES = [
    Clause('circuit', cases, check, 'several steps, converted or normalised', 700, 30000),
    Clause('linear', linear_cases, check_linear, 'several steps, states or health converted', 500, 20000),
]
ASSUMPTIONS = ['Process noise is given: the default one is defined in the coordinates of the filters',
               'Nonlinear models: coordinates in which Cholesky factors correspond (diagonal, triangular)',
               'Covariances stay well-conditioned, so that no repair is needed']
