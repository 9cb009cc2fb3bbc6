"""Estimators started at the truth and fed exact data of the same model"""
import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.ecm.ins_outs import ECMMeasurement

from .. import ecmref as ref, estgen as eg, gen, linmodel as lm
from ..core import Clause, close, require


def tame(spec, ocv):
    """Replace tables by straight lines, and the open-circuit voltage by a parabola: without kinks, estimates of small
    uncertainty have next to no bias"""
    for k, v in spec.items():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, dict):
                tame(x, None)
    if 'vals' in spec and 'pins' in spec:
        spec['style'] = 'linear'
        if len(spec['vals'][0]) > 2:
            spec['vals'] = [[r[0], r[-1]] for r in spec['vals']]
            spec['pins'] = None
    if ocv is not None:
        a, b, c, n = ocv
        spec['ocv']['ref'] = {'vals': [[gen.sig(a + b * s + c * s * s, 7) for s in np.linspace(0, 1, n)]], 'pins': None,
                              'style': 'cubic'}
    return spec


@st.composite
def cases(draw):
    case = draw(eg.problems(min_steps=6, max_steps=draw(st.sampled_from([10, 20, 40])), budget=0.25, sigma=0.02, max_names=2))
    ocv = [draw(gen.num(2.8, 3.5)), draw(gen.num(0.2, 1.)), draw(gen.num(-0.1, 0.2)), draw(st.integers(4, 6))]
    size = {n: len(eg.read(case['asoh'], [n])) for n in case['names']}
    tame(case['asoh'], ocv)
    if any(len(eg.read(case['asoh'], [n])) != w for n, w in size.items()) or case['cov'] is None:
        sd = [x for n in case['names'] for x in [0.02 * eg.spread(n, v) for v in eg.read(case['asoh'], [n])]]
        case['cov']['asoh'] = draw(eg.covariance(sd))
        case['q']['asoh'] = draw(eg.covariance([0.2 * x for x in sd]))
    case['also'] = []
    case['estimator'] = kind = draw(st.sampled_from(['joint', 'dual']))
    case['coordinates'] = draw(st.sampled_from(['plain', 'normalised', 'converted']))
    sds = {k: np.sqrt(np.diag(v)).tolist() for k, v in case['cov'].items()}
    prob = eg.Problem(case)
    case['conv'] = {}
    if case['coordinates'] == 'converted':
        parts = {'joint': sds['transient'] + np.sqrt(np.diag(prob.cov['asoh'])).tolist()} if kind == 'joint' else sds
        n_in = 2 if case['drive'][0]['temperature'] is None else 3
        for part, sd in parts.items():
            case['conv'][part] = {'hidden': draw(eg.diagonal(len(sd), sd)),
                                  'control': draw(eg.diagonal(n_in)) if draw(st.booleans()) else None,
                                  'output': draw(eg.diagonal(1)) if draw(st.booleans()) else None}
    return case


def make(case, prob):
    covs = dict(covariance_transient=prob.cov['transient'].copy(), covariance_asoh=prob.cov['asoh'].copy(),
                transient_covariance_process_noise=prob.q['transient'].copy(),
                asoh_covariance_process_noise=prob.q['asoh'].copy(), covariance_sensor_noise=prob.r.copy())
    args = eg.filter_args(case['tuning'])
    dual = case['estimator'] == 'dual'
    covs['filter_args'] = {'transient': args, 'asoh': args} if dual else args
    cls = DualEstimator if dual else JointEstimator
    if case['coordinates'] != 'converted':
        return cls.initialize_unscented_kalman_filter(
            cell_model=prob.model, initial_asoh=prob.asoh, initial_transients=prob.state, initial_inputs=prob.inputs[0],
            normalize_asoh=case['coordinates'] == 'normalised', **covs)
    conv = {part: {f'{k}_conversion_operator': eg.operator(v) for k, v in d.items() if v is not None}
            for part, d in case['conv'].items()}
    common = dict(cell_model=prob.model, asoh=prob.asoh, transients=prob.state, inputs=prob.inputs[0])
    names = tuple(prob.names)
    if dual:
        return cls.initialize_ukf_from_wrappers(
            transient_wrapper=CellModelWrapper(**common, converters=conv['transient']),
            asoh_wrapper=DegradationModelWrapper(**common, converters=conv['asoh'], asoh_inputs=names), **covs)
    return cls.initialize_ukf_from_wrapper(
        joint_wrapper=JointCellModelWrapper(**common, converters=conv['joint'], asoh_inputs=names), **covs)


def check(case, note):
    prob = eg.Problem(case, mark=case['coordinates'] != 'converted')
    est = make(case, prob)
    n = prob.num_states
    truth, p = prob.state, prob.p0
    prior = np.diag(prob.cov['asoh'])
    added = np.diag(prob.q['asoh'])
    worst = 0.
    for k in range(1, len(prob.inputs)):
        truth = prob.model.update_transient_state(prob.inputs[k - 1], prob.inputs[k], truth, prob.asoh)
        y = prob.model.calculate_terminal_voltage(prob.inputs[k], truth, prob.asoh)
        state, pred = est.step(ref.build_input(case['drive'][k]), ECMMeasurement(terminal_voltage=y.terminal_voltage))
        sd_y = np.sqrt(pred.get_covariance()[0, 0])
        sd = np.sqrt(np.diag(state.get_covariance()))
        exact = np.concatenate([truth.to_numpy()[0], p])
        err_y = abs(pred.get_mean()[0] - y.to_numpy()[0, 0]) / sd_y
        err = np.abs(state.get_mean() - exact) / sd
        require(sd_y > 0 and (sd > 0).all(), f'step {k}: an uncertainty is zero')
        worst = max(worst, err_y, err.max())
        require(err_y < LIMIT, f'step {k}: prediction is off by {err_y:.3g} standard deviations')
        require((err < LIMIT).all(), f'step {k}: {prob.state_names[int(err.argmax())]} is off by {err.max():.3g} '
                                     'standard deviations')
        var = np.diag(state.get_covariance())[n:]
        require((var <= (prior + k * added) * (1 + 1e-6)).all(),
                f'step {k}: variance of health {var.tolist()}, more than {(prior + k * added).tolist()}')
    moved = abs(sum(np.diff([d['time'][0][0] for d in case['drive']]) *
                    np.array([d['current'][0][0] for d in case['drive'][1:]]))) > 0
    note(case['estimator'], case['coordinates'], f'worst < 1e{int(np.ceil(np.log10(worst + 1e-12)))}', nontrivial=moved)


LIMIT = 0.02


# --- Linear models: no bias at all
@st.composite
def linear_cases(draw):
    case = draw(lm.problems(max_steps=12))
    n = lm.size(case)
    case['estimator'] = draw(st.sampled_from(['joint', 'dual']))
    like = [1.] * n
    case['conv'] = {'joint': draw(st.one_of(st.none(), eg.diagonal(n, like))),
                    'transient': draw(st.one_of(st.none(), eg.diagonal(3, like))),
                    'asoh': draw(st.one_of(st.none(), eg.diagonal(n - 3, like)))}
    return case


def check_linear(case, note):
    sys = lm.Linear(case)
    common = dict(cell_model=sys, asoh=sys.asoh, transients=sys.state, inputs=sys.input(0))

    def conv(part):
        spec = case['conv'][part]
        return {} if spec is None else {'converters': {'hidden_conversion_operator': eg.operator(spec)}}
    args, names = eg.filter_args(case['tuning']), tuple(case['names'])
    cov, q = np.array(case['cov']), np.array(case['q'])
    noise = dict(covariance_transient=cov[:3, :3].copy(), covariance_asoh=cov[3:, 3:].copy(),
                 transient_covariance_process_noise=q[:3, :3].copy(), asoh_covariance_process_noise=q[3:, 3:].copy(),
                 covariance_sensor_noise=np.array(case['r']))
    if case['estimator'] == 'joint':
        est = JointEstimator.initialize_ukf_from_wrapper(
            joint_wrapper=JointCellModelWrapper(**common, **conv('joint'), asoh_inputs=names), **noise, filter_args=args)
    else:
        est = DualEstimator.initialize_ukf_from_wrappers(
            transient_wrapper=CellModelWrapper(**common, **conv('transient')),
            asoh_wrapper=DegradationModelWrapper(**common, **conv('asoh'), asoh_inputs=names), **noise,
            filter_args={'transient': args, 'asoh': args})
    truth, p = sys.state, np.array(case['p'])[sys.cols]
    for k in range(1, len(case['u'])):
        truth = sys.update_transient_state(sys.input(k - 1), sys.input(k), truth, sys.asoh)
        y = sys.calculate_terminal_voltage(sys.input(k), truth, sys.asoh)
        size = 1 + np.abs(truth.to_numpy()).max() + np.abs(y.to_numpy()).max()
        tol = 1e-6 / min(case['tuning']['alpha'] or 1., 1.) ** 2 * size
        state, pred = est.step(sys.input(k), y)
        close(pred.get_mean(), y.to_numpy()[0], f'step {k}: predicted output', 0, tol)
        close(state.get_mean(), np.concatenate([truth.to_numpy()[0], p]), f'step {k}: state', 0, tol)
        var = np.diag(state.get_covariance())[3:]
        most = np.diag(cov)[3:] + k * np.diag(q)[3:]
        require((var <= most * (1 + 1e-6)).all(), f'step {k}: variance of health {var.tolist()}, more than {most.tolist()}')
    note(case['estimator'], 'converted' if case['conv']['joint' if case['estimator'] == 'joint' else 'asoh'] else 'plain',
         nontrivial=len(case['u']) > 3)


CLAUSES = [
    Clause('circuit', cases, check, 'the cell is charged or discharged', 250, 10000),
    Clause('linear', linear_cases, check_linear, 'at least three steps', 400, 20000),
]
ASSUMPTIONS = ['Uncertainties are small and tables without kinks, so that bias of nonlinear models is small: limit 0.02 deviations']
