"""Simulators and estimators with models defined by a user"""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.simulator import Simulator

from .. import estgen as eg, gen, kfref, usermodel as um
from ..core import Clause, close, require, same


# --- Simulation
@st.composite
def simulations(draw):
    spec = draw(um.specs())
    batch = draw(st.sampled_from([1, 2, 3]))
    whole = draw(st.integers(0, 3)) == 0

    def rows(n):
        return [draw(um.vectors(n, whole=whole)) for _ in range(batch if draw(st.booleans()) else 1)]
    case = {'spec': spec, 'batch': batch, 'health': {n: rows(w) for n, w in um.health_layout(spec)},
            'state': rows(um.size(spec, 'state')), 'wear': draw(st.booleans())}
    inputs = [rows(um.size(spec, 'input')) for _ in range(draw(st.integers(2, 5)))]
    for k, inp in enumerate(inputs):
        for r in inp:
            r[0] = 1.5 * k
    case['inputs'] = inputs
    return case


def check_simulation(case, note):
    spec, batch = case['spec'], case['batch']
    model = um.Model(spec)
    phys = model.physics
    layout = um.health_layout(spec)
    asoh = um.build_health({n: np.array(v, dtype=float) for n, v in case['health'].items()}, spec)
    inputs = [um.build('input', x, spec) for x in case['inputs']]
    sim = Simulator(model, asoh, um.build('state', case['state'], spec), inputs[0], keep_history=True,
                    **({'degradation_model': um.Wear(model)} if case['wear'] else {}))
    members = []
    for b in range(batch):
        p = np.concatenate([v[b % len(v)] for v in case['health'].values()])
        x, u = np.array(case['state'][b % len(case['state'])]), [np.array(i[b % len(i)]) for i in case['inputs']]
        log = [(u[0], x, phys.observe(x, p, u[0]))]
        for u0, u1 in zip(u, u[1:]):
            x = phys.advance(x, p, u0, u1)
            log.append((u1, x, phys.observe(x, p, u1)))
            if case['wear']:
                p = um.Physics.wear(p, x, log[-1][2], u1)
        members.append((log, p))

    half = len(inputs) // 2
    for x in inputs[1:half]:
        sim.step(x)
    outs = sim.evolve(inputs[max(half, 1):])
    require(len(outs) == len(inputs) - max(half, 1), 'number of outputs')
    health = model.read(sim.asoh, 'health')
    histories = [('input', sim.input_history), ('state', sim.transient_history), ('output', sim.measurement_history)]
    size = max(x.batch_size for _, h in histories for x in h)
    for b in range(batch):
        log, p = members[b]
        close(health[b % len(health)], p, f'health of member {b}', 1e-9, 1e-9)
        for c, (kind, hist) in enumerate(histories):
            for k, obj in enumerate(hist):
                rows = model.read(obj, kind)
                close(rows[b % len(rows)], log[k][c], f'{kind} of member {b} at step {k}', 1e-9, 1e-9)
    df = sim.to_dataframe()
    columns = ['batch'] + [x for kind, _ in histories for x in um.names(um.widths(spec, kind))]
    require(sorted(df.columns) == sorted(columns), f'columns {list(df.columns)} rather than {columns}')
    require(len(df) == size * len(inputs), f'{len(df)} rows')
    for b in range(size):
        mine = df[df['batch'] == b]
        close(mine[columns[1:]].to_numpy(), [np.concatenate(row) for row in members[b][0]], f'rows of member {b}', 1e-9, 1e-9)
    require(asoh.all_names == tuple(n for n, _ in layout), f'names of the parameters: {asoh.all_names}')
    note('batch' if size > 1 else 'single', 'wear' if case['wear'] else 'no wear', f'{um.size(spec, "output")} outputs',
         nontrivial=size > 1 and len(columns) > 6)


# --- Estimation
@st.composite
def estimations(draw):
    spec = draw(um.specs())
    layout = um.health_layout(spec)
    n, p, u, m = um.size(spec, 'state'), sum(w for _, w in layout), um.size(spec, 'input'), um.size(spec, 'output')
    chosen = draw(st.lists(st.sampled_from([x for x, _ in layout]), min_size=1, max_size=3, unique=True))
    k = sum(w for x, w in layout if x in chosen)
    kind = draw(st.sampled_from(['joint', 'dual']))
    steps = draw(st.integers(1, 3)) + 1
    whole = draw(st.integers(0, 3)) == 0
    inputs = [draw(um.vectors(u)) for _ in range(steps)]
    for i, x in enumerate(inputs):
        x[0] = 1.5 * i
    sd = 10. ** draw(st.integers(-2, 0))
    case = {'spec': spec, 'names': chosen, 'kind': kind, 'state': draw(um.vectors(n, whole=whole)),
            'health': draw(um.vectors(p, whole=whole)),
            'inputs': inputs, 'dy': [draw(um.vectors(m, -1., 1.)) for _ in inputs], 'how': draw(st.sampled_from(['marked', 'named', 'named'])),
            'cov': {'transient': draw(eg.covariance([sd] * n)), 'asoh': draw(eg.covariance([sd] * k))},
            'q': {'transient': draw(eg.covariance([0.3 * sd] * n)), 'asoh': draw(eg.covariance([0.3 * sd] * k))},
            'r': draw(eg.covariance([0.5 * sd] * m)), 'file': draw(st.booleans()), 'wear': draw(st.booleans())}
    case['tuning'] = draw(eg.TUNING) if kind == 'joint' else {'transient': draw(eg.TUNING), 'asoh': draw(eg.TUNING)}
    parts = {'joint': n + k} if kind == 'joint' else {'transient': n, 'asoh': k}
    case['conv'] = {part: {'hidden': draw(eg.triangular(w, [1.] * w)) if draw(st.booleans()) else None,
                           'control': draw(eg.diagonal(u)) if draw(st.booleans()) else None,
                           'output': draw(eg.diagonal(m)) if draw(st.booleans()) else None} for part, w in parts.items()}
    return case


def check_estimation(case, note):
    spec, joint = case['spec'], case['kind'] == 'joint'
    model = um.Model(spec)
    phys, layout = model.physics, um.health_layout(spec)
    base, cols, at = np.array(case['health']), {}, 0
    for n, w in layout:
        cols[n] = list(range(at, at + w))
        at += w
    asoh = um.build_health({n: base[None, c] for n, c in cols.items()}, spec)
    chosen = list(case['names'])
    for n in chosen:
        asoh.mark_updatable(n)
    if case['how'] == 'marked':
        chosen = [n for n, _ in layout if n in chosen]
    sel = [c for n in chosen for c in cols[n]]
    inputs = [um.build('input', x, spec) for x in case['inputs']]
    given = {} if case['how'] == 'marked' else {'asoh_inputs': tuple(chosen)}
    if case['wear']:
        given['degradation_model'] = um.Wear(model)
    common = dict(cell_model=model, asoh=asoh, transients=um.build('state', case['state'], spec), inputs=inputs[0])
    conv = {part: {f'{k}_conversion_operator': eg.operator(v) for k, v in d.items() if v is not None}
            for part, d in case['conv'].items()}
    cov = {k: np.array(v) for k, v in case['cov'].items()}
    q, r = {k: np.array(v) for k, v in case['q'].items()}, np.array(case['r'])
    args = dict(covariance_transient=cov['transient'].copy(), covariance_asoh=cov['asoh'].copy(),
                transient_covariance_process_noise=q['transient'].copy(), asoh_covariance_process_noise=q['asoh'].copy(),
                covariance_sensor_noise=r.copy())
    if joint:
        est = JointEstimator.initialize_ukf_from_wrapper(
            joint_wrapper=JointCellModelWrapper(**common, **given, converters=conv['joint']),
            filter_args=eg.filter_args(case['tuning']), **args)
    else:
        est = DualEstimator.initialize_ukf_from_wrappers(
            transient_wrapper=CellModelWrapper(**common, converters=conv['transient']),
            asoh_wrapper=DegradationModelWrapper(**common, **given, converters=conv['asoh']),
            filter_args={k: eg.filter_args(v) for k, v in case['tuning'].items()}, **args)

    # Names describe values
    state_names = um.names(um.widths(spec, 'state')) + um.names([(n, len(cols[n])) for n in chosen])
    output_names = um.names(um.widths(spec, 'output'))
    require(list(est.state_names) == state_names, f'names of states {est.state_names} rather than {state_names}')
    require(list(est.output_names) == output_names, f'names of outputs {est.output_names} rather than {output_names}')
    require(list(est.control_names) == um.names(um.widths(spec, 'input')), f'names of controls {est.control_names}')
    require((est.num_state_dimensions, est.num_output_dimensions) == (len(state_names), len(output_names)), 'numbers of dimensions')

    def whole(p):
        out = base.copy()
        out[sel] = p
        return out

    def worn(x, p, u):
        p = whole(p)
        return um.Physics.wear(p, x, phys.observe(x, p, u), u)[sel] if case['wear'] else p[sel]
    n = len(case['state'])
    x, p = np.array(case['state']), base[sel]
    tuning = {k: eg.full_tuning(v) for k, v in ({'joint': case['tuning']} if joint else case['tuning']).items()}
    mean, full = np.concatenate([x, p]), eg.block(cov['transient'], cov['asoh'])
    history = []
    for k in range(1, len(inputs)):
        u0, u1 = np.array(case['inputs'][k - 1]), np.array(case['inputs'][k])

        def step(y):
            if joint:
                return [kfref.unscented_step(
                    lambda z: np.concatenate([phys.advance(z[:n], whole(z[n:]), u0, u1), worn(z[:n], z[n:], u0)]),
                    lambda z: phys.observe(z[:n], whole(z[n:]), u1), mean, full, eg.block(q['transient'], q['asoh']), r,
                    **tuning['joint'], y=y)]
            return [kfref.unscented_step(lambda z: phys.advance(z, whole(p), u0, u1), lambda z: phys.observe(z, whole(p), u1), x,
                                         cov['transient'], q['transient'], r, **tuning['transient'], y=y),
                    kfref.unscented_step(lambda h: worn(x, h, u1), lambda h: phys.observe(phys.advance(x, whole(h), u0, u1), whole(h), u1), p,
                                         cov['asoh'], q['asoh'], r, **tuning['asoh'], y=y)]
        held = [full] if joint else list(cov.values())
        if min(np.linalg.eigvalsh(c / np.sqrt(np.outer(np.diag(c), np.diag(c)))).min() for c in held) < 1e-6:
            note('stopped')
            break
        sd_y = np.sqrt(np.diag(r))
        y = step(np.zeros(len(r)))[0]['y_mean'] + np.array(case['dy'][k]) * sd_y
        exp = step(y)
        sds = [np.sqrt(np.diag(e['x_cov']).clip(1e-300)) for e in exp]
        if min(np.linalg.eigvalsh(e['cov'] / np.outer(s, s)).min() for e, s in zip(exp, sds)) < 1e-6:
            note('stopped')
            break
        amp = max(e['amplification'] * (1 + np.linalg.norm(e['y_cov']) / np.linalg.eigvalsh(r).min()) for e in exp)
        tol = min(1e-9 * amp, 1e-3)
        state, pred = est.step(inputs[k], um.build('output', y, spec))
        dev = np.sqrt(np.diag(exp[0]['y_cov']))
        close((pred.get_mean() - exp[0]['y_mean']) / dev, 0 * dev, f'step {k}: predicted outputs', 0, tol)
        close(pred.get_covariance() / np.outer(dev, dev), exp[0]['y_cov'] / np.outer(dev, dev), f'step {k}: covariance of outputs', 0, tol)
        if joint:
            mean, full = exp[0]['mean'], exp[0]['cov']
        else:
            x, p = exp[0]['mean'], exp[1]['mean']
            cov = {'transient': exp[0]['cov'], 'asoh': exp[1]['cov']}
            mean, full = np.concatenate([x, p]), eg.block(cov['transient'], cov['asoh'])
        sd = np.concatenate(sds)
        for dist, what in [(state, 'result'), (est.state, 'state')]:
            close((dist.get_mean() - mean) / sd, 0 * sd, f'step {k}: {what}', 0, tol + 1e-9 * np.abs(mean / sd).max())
            close(dist.get_covariance() / np.outer(sd, sd), full / np.outer(sd, sd), f'step {k}: covariance of {what}', 0, tol)
        trans, health = est.get_estimated_state()
        got = dist.get_mean()
        close(model.read(trans, 'state')[0], got[:n], f'step {k}: estimated transient state', 1e-9, 1e-9)
        close(model.read(health, 'health')[0], whole(got[n:]), f'step {k}: estimated health', 1e-9, 1e-9)
        history.append((case['inputs'][k][0], state, pred))

    if case['file'] and history:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, 'out.h5')
            with HDF5Writer(hdf5_output=path, per_timestep='full') as writer:
                writer.prepare(est, expected_steps=len(history), expected_cycles=1)
                for t, state, pred in history:
                    writer.append_step(t, 0, state, pred)
            back = list(read_state_estimates(path))
        require(len(back) == len(history), f'{len(back)} estimates in the file rather than {len(history)}')
        for (t, state, pred), (when, a, b) in zip(history, back):
            require(float(when) == t, f'time {when} rather than {t}')
            for one, other in ((state, a), (pred, b)):
                same(other.get_mean(), one.get_mean(), 'mean read from the file')
                same(other.get_covariance(), one.get_covariance(), 'covariance read from the file')
    note(case['kind'], 'wear' if case['wear'] else 'no wear', f'{len(output_names)} outputs', f'{len(sel)} parameters',
         nontrivial=len(output_names) > 1 and len(inputs) > 2)


CLAUSES = [Clause('simulation', simulations, check_simulation, 'a batch, more than six quantities', 350, 12000),
           Clause('estimation', estimations, check_estimation, 'several outputs and steps', 450, 15000)]
ASSUMPTIONS = ['Models return new objects, as documented, and always of the same layout',
               'Coordinates in which Cholesky factors correspond; covariances stay well-conditioned']
