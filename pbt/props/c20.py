"""Joint estimation, in any coordinates, against an unscented filter on the model itself"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import JointCellModelWrapper
from moirae.models.ecm.ins_outs import ECMMeasurement

from .. import ecmref as ref, estgen as eg, gen, kfref, linmodel as lm
from ..core import Clause, close, require, same


@st.composite
def cases(draw):
    case = draw(eg.problems())
    kind = draw(st.sampled_from(['diagonal', 'triangular', 'normalised', 'scalar', 'wrapper', 'plain']))
    case['kind'] = kind
    case['mark'] = kind in ('plain', 'normalised') or draw(st.booleans())
    prob = eg.Problem(case, mark=case['mark'])
    sd = np.sqrt(np.concatenate([np.diag(prob.cov['transient']), np.diag(prob.cov['asoh'])])).tolist()
    case['joint'] = draw(st.booleans())
    case['joint noise'] = draw(st.booleans())
    # Noise of one part only, where the other is left to the default of the filter
    case['only'] = draw(st.sampled_from([None, None, None, 'transient', 'asoh'])) if not case['joint noise'] else None
    case['decoys'] = draw(st.booleans())  # Those of the parts are not used if that of the whole is given
    case['hidden'] = {'diagonal': lambda: draw(eg.diagonal(len(sd), sd)), 'triangular': lambda: draw(eg.triangular(len(sd), sd)),
                      'scalar': lambda: {'mult': draw(gen.lognum(0.1, 10., 3)), 'add': None}}.get(kind, lambda: None)()
    n_in = 2 if case['drive'][0]['temperature'] is None else 3
    own = kind not in ('plain', 'normalised')
    case['control'] = draw(eg.diagonal(n_in)) if own and draw(st.booleans()) else None
    case['output'] = draw(eg.diagonal(1)) if own and draw(st.booleans()) else None
    return case


def make(case, prob):
    covs = {}
    if case['joint']:
        covs['covariance_joint'] = eg.block(prob.cov['transient'], prob.cov['asoh'])
        if case.get('decoys'):
            covs.update(covariance_transient=7. * prob.cov['transient'], covariance_asoh=3. * prob.cov['asoh'])
    else:
        covs.update(covariance_transient=prob.cov['transient'].copy(), covariance_asoh=prob.cov['asoh'].copy())
    if case['joint noise']:
        covs['joint_covariance_process_noise'] = eg.block(prob.q['transient'], prob.q['asoh'])
        if case.get('decoys'):
            covs.update(transient_covariance_process_noise=7. * prob.q['transient'],
                        asoh_covariance_process_noise=3. * prob.q['asoh'])
    else:
        covs.update({f'{k}_covariance_process_noise': q.copy() for k, q in prob.q.items() if case.get('only') in (None, k)})
    covs.update(covariance_sensor_noise=prob.r.copy(), filter_args=eg.filter_args(case['tuning']), **eg.uncertain(case, prob.inputs[0]))
    if case['kind'] in ('plain', 'normalised'):
        return JointEstimator.initialize_unscented_kalman_filter(
            cell_model=prob.model, initial_asoh=prob.asoh, initial_transients=prob.state, initial_inputs=prob.inputs[0],
            normalize_asoh=case['kind'] == 'normalised', **covs)
    converters = {f'{k}_conversion_operator': eg.operator(case[k]) for k in ('hidden', 'control', 'output')
                  if case[k] is not None}
    wrapper = JointCellModelWrapper(cell_model=prob.model, asoh=prob.asoh, transients=prob.state, inputs=prob.inputs[0],
                                    converters=converters,
                                    **({} if case['mark'] else {'asoh_inputs': tuple(prob.names)}))
    return JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=wrapper, **covs)


def compare(actual, mean, cov, sd, what, tol):
    """Compare moments with errors in units of the standard deviations before the correction"""
    got, got_cov = actual.get_mean(), actual.get_covariance()
    require(got.shape == mean.shape and got_cov.shape == cov.shape, f'{what}: shapes {got.shape} and {got_cov.shape}')
    close((got - mean) / sd, np.zeros_like(sd), f'{what}: error of the mean over deviation', 0,
          tol + 1e-9 * np.abs(mean / sd).max())
    close(got_cov / np.outer(sd, sd), cov / np.outer(sd, sd), f'{what}: covariance over that of the prior', 0, tol)


def consistent(est, prob, what):
    """Different ways of asking for the state agree"""
    dist = est.state
    mean = dist.get_mean()
    trans, asoh = est.get_estimated_state()
    n = prob.num_states
    scale = np.abs(mean) + 1e-6
    close(trans.to_numpy()[0] / scale[:n], mean[:n] / scale[:n], f'{what}: estimated transient state', 1e-9, 1e-9)
    close(asoh.get_parameters(prob.names)[0] / scale[n:], mean[n:] / scale[n:], f'{what}: estimated health', 1e-9, 1e-9)
    for name in eg.health_names(prob.case['asoh']):
        if name not in prob.names:
            same(asoh.get_parameters([name])[0], eg.read(prob.case['asoh'], [name]), f'{what}: {name}, not estimated')
    return dist


def check_names(est, prob):
    require(tuple(est.state_names) == prob.state_names, f'names {est.state_names} rather than {prob.state_names}')
    require(est.num_state_dimensions == len(prob.state_names), 'number of dimensions of the state')
    require(tuple(est.output_names) == ('terminal_voltage',) and est.num_output_dimensions == 1, 'names of the outputs')
    temp = () if prob.case['drive'][0]['temperature'] is None else ('temperature',)
    require(tuple(est.control_names) == ('time', 'current') + temp, f'names of controls {est.control_names}')


def check(case, note):
    prob = eg.Problem(case, mark=case['mark'])
    est = make(case, prob)
    check_names(est, prob)
    n = prob.num_states
    mean, cov = np.concatenate([prob.x0, prob.p0]), eg.block(prob.cov['transient'], prob.cov['asoh'])
    sd = np.sqrt(np.diag(cov))
    compare(consistent(est, prob, 'at the start'), mean, cov, sd, 'at the start', 1e-9)
    q = eg.block(*[prob.q[k] if case.get('only') in (None, k) else 1e-8 * np.eye(len(prob.q[k])) for k in ('transient', 'asoh')])
    tuning = eg.full_tuning(case['tuning'])
    for k in range(1, len(prob.inputs)):
        def f(x):
            return np.concatenate([prob.advance(x[:n], x[n:], k), x[n:]])

        def h(x):
            return prob.voltage(x[:n], x[n:], k)
        if np.linalg.eigvalsh(cov / np.outer(sd, sd)).min() < 1e-7:
            note('stopped')
            break
        y_free = kfref.unscented_step(f, h, mean, cov, q, prob.r, **tuning, y=np.zeros(1))['y_mean']
        y = y_free + case['dv'][k - 1]
        exp = kfref.unscented_step(f, h, mean, cov, q, prob.r, **tuning, y=y)
        inp, out = ref.build_input(case['drive'][k]), ECMMeasurement(terminal_voltage=y[0])
        state, pred = est.step(inp, out)
        amp = exp['amplification'] * (1 + np.abs(exp['y_cov']).max() / prob.r.min())
        tol = min(1e-9 * amp, 1e-3)
        sd = np.sqrt(np.diag(exp['x_cov']).clip(1e-300))
        sd_y = np.sqrt(exp['y_cov'][0, 0])
        if not np.isfinite(sd).all() or np.linalg.eigvalsh(exp['cov'] / np.outer(sd, sd)).min() < 1e-7:
            note('stopped')  # The repair of covariances depends on coordinates
            break
        close((pred.get_mean() - exp['y_mean']) / sd_y, [0.], f'step {k}: error of predicted voltage over deviation', 0, tol)
        close(pred.get_covariance(), exp['y_cov'], f'step {k}: variance of predicted voltage', tol, 0)
        compare(state, exp['mean'], exp['cov'], sd, f'step {k}: result', tol)
        held = consistent(est, prob, f'step {k}')
        compare(held, state.get_mean(), state.get_covariance(), sd, f'step {k}: state and result', 1e-9)
        mean, cov = exp['mean'], exp['cov']
    note(case['kind'], f'{len(prob.names)} parameters', 'control conversion' if case['control'] else 'plain controls',
         'output conversion' if case['output'] else 'plain outputs', 'joint covariance' if case['joint'] else 'parts',
         f'noise of {case.get("only") or "both"}',
         nontrivial=case['kind'] not in ('plain', 'wrapper') and len(prob.inputs) > 2)


# --- Linear models, for which nothing at all depends on coordinates
@st.composite
def linear_cases(draw):
    case = draw(lm.problems())
    n = lm.size(case)
    full = draw(st.booleans())

    def affine(k):
        """Any well-conditioned matrix"""
        d = draw(eg.diagonal(k))
        d['mult'] = (np.diag(d['mult']) @ np.array([[1. if i == j else (draw(gen.num(-0.5, 0.5, 2)) / k if full else 0.)
                                                     for j in range(k)] for i in range(k)])).tolist()
        return d
    case['conv'] = {'hidden': affine(n) if draw(st.integers(0, 3)) < 3 else None,
                    'control': affine(lm.controls(case)) if draw(st.booleans()) else None,
                    'output': affine(lm.outputs(case)) if draw(st.booleans()) else None}
    case['full'] = full
    return case


def check_linear(case, note):
    sys = lm.Linear(case)
    conv = case['conv']
    wrapper = JointCellModelWrapper(
        cell_model=sys, asoh=sys.asoh, transients=sys.state, inputs=sys.input(0), asoh_inputs=tuple(case['names']),
        converters={f'{k}_conversion_operator': eg.operator(v) for k, v in conv.items() if v is not None})
    est = JointEstimator.initialize_ukf_from_wrapper(
        joint_wrapper=wrapper, covariance_joint=np.array(case['cov']), joint_covariance_process_noise=np.array(case['q']),
        covariance_sensor_noise=np.array(case['r']), filter_args=eg.filter_args(case['tuning']), **eg.uncertain(case, sys.input(0)))
    n = sys.num_states
    mean, cov = np.array(case['x'] + case['p'])[sys.selected], np.array(case['cov'])
    a, c = sys.joint_matrices()
    q, r = np.array(case['q']), np.array(case['r'])
    big = 2 * len(mean) + len(r)
    tuning = eg.full_tuning(case['tuning'])
    amp = 1 + big / (tuning['alpha'] ** 2 * (big + (3 - big if tuning['kappa'] == 'automatic' else tuning['kappa'])))
    require(tuple(est.state_names) == sys.names, f'names {est.state_names} rather than {sys.names}')
    for k in range(1, len(case['u'])):
        y = np.array(case['y'][k])
        exp = kfref.kalman_step(a, sys.shift(k), c, sys.out_shift(k), mean, cov, q, r, y)
        state, pred = est.step(sys.input(k), sys.output(k))
        tol = 1e-11 * amp * (1 + np.linalg.norm(exp['gain'])) ** 2 * 400
        close(pred.get_mean(), exp['y_mean'], f'step {k}: predicted output', 1e-8, tol * 10)
        close(pred.get_covariance(), exp['y_cov'], f'step {k}: covariance of predicted output', 1e-8, tol * 10)
        close(state.get_mean(), exp['mean'], f'step {k}: state', 1e-8, tol * 10)
        close(state.get_covariance(), exp['cov'], f'step {k}: covariance', 1e-8, tol * 10)
        close(est.state.get_mean(), state.get_mean(), f'step {k}: state and result', 1e-9, 1e-9)
        close(est.state.get_covariance(), state.get_covariance(), f'step {k}: covariance of state and result', 1e-9, 1e-9)
        trans, asoh = est.get_estimated_state()
        close(trans.to_numpy()[0], state.get_mean()[:n], f'step {k}: estimated transient state', 1e-9, 1e-9)
        close(asoh.get_parameters(case['names'])[0], state.get_mean()[n:], f'step {k}: estimated health', 1e-9, 1e-9)
        mean, cov = exp['mean'], exp['cov']
    note('full' if case['full'] else 'diagonal', *[f'{k} converted' for k, v in conv.items() if v is not None],
         nontrivial=conv['hidden'] is not None and len(case['u']) > 2)


CLAUSES = [
    Clause('circuit', cases, check, 'other coordinates, several steps', 700, 30000),
    Clause('linear', linear_cases, check_linear, 'other coordinates of the state, several steps', 800, 30000),
]
ASSUMPTIONS = ['Process noise is given: the default one is defined in the coordinates of the filter',
               'Nonlinear models: coordinates in which Cholesky factors correspond (diagonal, triangular)',
               'Covariances stay well-conditioned, so that no repair is needed']
